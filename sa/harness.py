"""Analysis harnesses: symbolic initial states for the library's public entry points."""
from .interp import *
from . import program


class Session(Interp):
    def __init__(self, prog, models=None, opts=None):
        super().__init__(prog, models, opts)

    def begin(self, mod):
        self.frames.append(Frame({"_m": mod, "q": "<harness>", "params": [], "ret": 0}, "H"))

    def sym_object(self, q, name):
        """object of class q with symbolic fields; returns its reference"""
        r = self.p.rec_by_q[q][0]
        m = r["_m"]
        for i, t in enumerate(m.types):
            if t and t.get("rec") == r["u"] and "r" not in t and "p" not in t:
                v = self.sym(TyRef(m, i), "in", (name,))
                return self.root(name, v)
        fs = self.all_fields(r)
        v = rec(r["q"], [f["n"] for _, f in fs], [self.sym(TyRef(mm, f["t"]), "fld", (mk("in", name, sort="o"), f["n"])) for mm, f in fs])
        return self.root(name, v)

    def run(self, q, this, args, n=None, pred=None):
        f = self.p.fn(q, n, pred)
        e = {"l": f.get("l"), "f": f.get("f")}
        return self.invoke(f, args, this, None)


def fields(v):
    return dict(zip(v.args[1], v.args[2:]))


def valid_qp(s, name="qp", N=None, K=None, M=None):
    """a quadratic program with conforming dimensions N, K, M (inequality indices inside [0,N))"""
    r = s.p.rec_by_q["mini_opt::QP"][0]
    N = N if N is not None else mk("dim", "N", sort="i")
    K = K if K is not None else mk("dim", "K", sort="i")
    nm = lambda f: mk("in", name + "." + f, sort="o")
    for d in (N, K):
        set_bounds(d, 0, None)
    set_bounds(N, 1, None)
    fs = dict((f["n"], TyRef(m, f["t"])) for m, f in s.all_fields(r))
    cons = nm("constraints")
    if M is None:
        M = mk("size", cons, sort="i")
        set_bounds(M, 0, None)
    vals = {"G": sym_mat(nm("G"), N, N), "c": sym_mat(nm("c"), N, ONE), "A_eq": sym_mat(nm("A_eq"), K, N), "b_eq": sym_mat(nm("b_eq"), K, ONE),
            "constraints": sym_list(tkey(fs["constraints"].targ(0)), cons)}
    for n, t in fs.items():
        if n not in vals:
            vals[n] = s.sym(t, "fld", (mk("in", name, sort="o"), n))

    def pat(x):
        if x.op == "fld" and x.args[1] == "variable" and x.args[0].op == "at" and x.args[0].args[0] is cons:
            return 0, N
        return None
    add_pattern_bound(pat)
    names = [f["n"] for _, f in s.all_fields(r)]
    return s.root(name, rec(r["q"], names, [vals[n] for n in names])), N, K, M
