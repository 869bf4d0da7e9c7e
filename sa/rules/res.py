"""Rules for residuals (R01..R03): where derivatives go, range checks, agreement of the views."""
from .qp2 import *
from .. import loops as _loops
from ..interp import TyRef
from .nls import nonnull_of

RES = "mini_opt::Residual"
MODEL = RES + "::Model"
R_DIM = 2
VARIANTS = (("Fixed", 3), ("Dyn", None))
VIEWS = ("UpdateHessian", "UpdateJacobian", "ErrorVector")


def model_record(P, tag):
    for r in P.rec_by_q.get(MODEL, ()):
        if tag in r["u"]:
            return r
    raise Undecided("no instantiation of the residual model for " + tag)


def model_fn(P, tag, name):
    c = [f for q in P.by_q for f in P.by_q[q] if f.get("cls") == MODEL and q.endswith("::" + name) and tag in q and f.get("body")]
    if not c:
        raise Undecided("no function %s of the residual model" % name)
    return c[0]


def sym_of_record(s, r, name):
    fs = s.all_fields(r)
    v = rec(r["q"], [f["n"] for _, f in fs], [s.sym(TyRef(m, f["t"]), "fld", (mk("in", name, sort="o"), f["n"])) for m, f in fs])
    return s.root(name, v)


_given = {}


def m_functor(ip, e):
    """the user's function: an arbitrary vector depending on the parameters; writes the whole derivative matrix when asked"""
    obj = ip.val(ip.ev(e["args"][0])) if len(e["args"]) == 3 else None
    p = ip.rv(e["args"][-2])
    p = ip.val(p) if p.op == "ref" else p
    j = ip.rv(e["args"][-1])
    Jv = None
    key = mk("args", m_rows(p), m_body(p), sort="o")
    if j.op == "ptr":
        r = ip.deref(j, e)
        old = ip.load(r)
        ip.store(r, sym_mat(mk("Jac", sort="o"), old.args[0], old.args[1]))
        Jv = old
    elif j is not NULL:
        ip.note("derivative argument of a residual function", e)
    ip.event("functor", e, obj=obj, p=p, J=Jv, key=key)
    return sym_mat(mk("Fun", sort="o"), num(R_DIM), ONE)


FUNCTORS = {"mo_witness::Fixed::operator()": m_functor, "mo_witness::Dyn::operator()": m_functor}


class View:
    """one member function of the residual model on arbitrary arguments"""
    def __init__(self, ctx, tag, n, name, models=None):
        P = ctx.prog()
        self.tag, self.name = tag, name
        f = model_fn(P, tag, name)
        r = model_record(P, tag)

        def setup(E):
            s = E.s
            E.m = sym_of_record(s, r, "model")
            E.X = mk("dim", "X", sort="i")
            E.x = s.root("x", sym_mat(mk("in", "x", sort="o"), E.X, ONE))
            E.H = s.root("H", sym_mat(mk("in", "H", sort="o"), mk("dim", "Hr", sort="i"), mk("dim", "Hc", sort="i")))
            E.b = s.root("b", sym_mat(mk("in", "b", sort="o"), mk("dim", "Br", sort="i"), ONE))

        def args(E):
            return {"UpdateHessian": [E.x, ptr(E.H), ptr(E.b)], "UpdateJacobian": [E.x, E.H, E.b], "ErrorVector": [E.x, E.b]}[name]
        self.E = E = Entry(ctx, f, lambda E: E.m, args, setup, FUNCTORS)
        self.f = f
        self.loc = "include/mini_opt/residual.hpp:%s" % f.get("l")
        mf = fields(E.mem0["model"])
        ixs = [v for k, v in mf.items() if is_list(v)]
        if len(ixs) != 1:
            raise Undecided("index list of the residual model")
        self.idx = ixs[0]
        self.n = num(n) if n is not None else lsize(self.idx)
        others = [v for k, v in mf.items() if v is not self.idx]
        self.func = others[0] if len(others) == 1 else None
        self.build = E.s.build

    def at(self, i):
        return lat(self.idx, i, builder=self.build)

    def accepted(self, *dims):
        """what must hold for this call to be accepted"""
        i = iv(fresh("i"))
        out = [mk_forall(i, self.n, geq(self.at(i), ZERO))]
        for d in dims:
            out.append(mk_forall(i, self.n, lt(self.at(i), d)))
        return out


def is_list(v):
    return v.op == "list"


def view(ctx, tag, n, name):
    k = ("view", tag, name)
    if k not in ctx.cache:
        ctx.cache[k] = View(ctx, tag, n, name)
    return ctx.cache[k]


Jc = mk("Jac", sort="o")
Fc = mk("Fun", sort="o")


def dotJ(i, j):
    k = iv(fresh("k"))
    return mk_sum([(k, num(R_DIM))], mul(Jel(k, i), Jel(k, j)))


def dotr(i):
    k = iv(fresh("k"))
    return mk_sum([(k, num(R_DIM))], mul(Jel(k, i), Fel(k)))


def Jel(k, i):
    return mk("el", Jc, k, i, sort="r")


def Fel(k):
    return mk("el", Fc, k, ZERO, sort="r")


def distinct(V):
    """no variable is listed twice"""
    i, j = iv(fresh("i")), iv(fresh("j"))
    if V.tag == "Fixed":
        n = 3
        return and_(*[not_(eqn(V.at(num(a)), V.at(num(b)))) for a in range(n) for b in range(a)])
    return TRUE


def r01(ctx):
    made(ctx)
    for tag, n in VARIANTS:
        for name in VIEWS:
            V = view(ctx, tag, n, name)
            E = V.E
            loc = V.loc
            sub_ = "%s<%s>" % (name, "fixed" if n else "dynamic")
            if E.dead:
                raise Undecided(sub_ + " never returns")
            calls = [e for e in E.events if e.kind == "functor"]
            ctx.expect(len(calls) >= 1, "evaluation", "%s evaluates the function" % sub_, loc, "the function is never evaluated")
            for e in calls:
                p = e.data["p"]
                ctx.eq("gathered variables", "%s: as many as listed" % sub_, m_rows(p), V.n, e.loc)
                want = m_at(E.s.val(E.x), V.at(ROW))
                ctx.eq("gathered variables", "%s: value i is the variable listed i-th" % sub_, m_body(p), want, e.loc, and_(e.cond(), geq(ROW, ZERO), lt(ROW, V.n)))
                ctx.expect(e.data["obj"] is None or e.data["obj"] is V.func, "evaluation", "%s evaluates the residual's own function" % sub_, e.loc, "another function object is called")
                ctx.expect(not e.ctx, "evaluation", "%s evaluates the function once" % sub_, e.loc, "evaluated in a loop")
            r, c = ROW, COL
            pc = E.pc()
            if name == "UpdateHessian":
                H0, H1 = E.mem0["H"], E.s.st.mem["H"]
                b0, b1 = E.mem0["b"], E.s.st.mem["b"]
                i, j = iv(fresh("i")), iv(fresh("j"))

                def pair(i, j):
                    gi, gj = V.at(i), V.at(j)
                    return add(mul_ind(and_(eqn(gi, r), eqn(gj, c), geq(gi, gj)), dotJ(i, j)), mul_ind(and_(eqn(gj, r), eqn(gi, c), lt(gi, gj)), dotJ(i, j)))
                if tag == "Fixed":
                    want = add(m_body(H0), *[pair(num(a), num(b)) for a in range(n) for b in range(a + 1)])
                    wb = add(m_body(b0), *[mul_ind(eqn(V.at(num(a)), r), dotr(num(a))) for a in range(n)])
                else:
                    want = add(m_body(H0), mk_sum([(i, V.n), (j, V.n)], mul_ind(leq(j, i), pair(i, j))))
                    k = iv(fresh("k"))
                    wb = add(m_body(b0), mk_sum([(i, V.n), (k, num(R_DIM))], mul_ind(eqn(V.at(i), r), mul(Jel(k, i), Fel(k)))))
                ctx.eq("Hessian", "%s: J_i.J_j is added to the lower-triangle entry of variables i and j, nothing else changes" % sub_, m_body(H1), want, loc, pc)
                ctx.eq("linear term", "%s: J_i.r is added to the entry of variable i, nothing else changes" % sub_, m_body(b1), wb, loc, pc)
                for nm, a, b_ in (("H", H0, H1), ("b", b0, b1)):
                    ctx.expect(b_.op == "mat" and a.args[:2] == b_.args[:2], "sizes", "%s: %s keeps its size" % (sub_, nm), loc, "resized")
            elif name == "UpdateJacobian":
                H0, H1 = E.mem0["H"], E.s.st.mem["H"]
                inside = and_(geq(r, ZERO), lt(r, num(R_DIM)))
                a = iv(fresh("a"))
                if tag == "Fixed":
                    for q in range(n):
                        ctx.eq("Jacobian", "%s: column %d of the derivative is the column of variable listed there" % (sub_, q), m_at(H1, r, V.at(num(q))), Jel(r, num(q)), loc,
                               and_(pc, inside, distinct(V)))
                    other = and_(*[not_(eqn(V.at(num(q)), c)) for q in range(n)])
                    ctx.eq("Jacobian", "%s: no other column changes" % sub_, m_body(H1), m_body(H0), loc, and_(pc, inside, other))
                else:
                    jac_dyn(ctx, V, sub_, pc, inside)
            mo0, mo1 = E.mem0["model"], E.s.st.mem["model"]
            ctx.expect(mo0 is mo1, "residual unchanged", sub_, loc, "the residual modifies itself")


def q13_residual(ctx):
    """the accumulated Hessian: entries above the diagonal are neither written nor read"""
    for tag, n in VARIANTS:
        V = view(ctx, tag, n, "UpdateHessian")
        E = V.E
        H0, H1 = E.mem0["H"], E.s.st.mem["H"]
        nm = "residual<%s>" % ("fixed" if n else "dynamic")
        ctx.eq("lower triangle", "%s writes nothing above the diagonal" % nm, m_body(H1), m_body(H0), V.loc, and_(E.pc(), lt(ROW, COL)))
        gname = H0.args[2].args[0]
        bad = []

        def visit(x, fact):
            if x.op == "el" and x.args[0] is gname:
                bad.append(x)
                return True
            return False
        R = Reach(E.s, visit, phi_values(E.s))
        for what, v in (("value", E.ret), ("linear term", E.s.st.mem["b"])):
            del bad[:]
            R.collect(v)
            ctx.expect(not bad, "lower triangle", "%s: the %s does not depend on the Hessian" % (nm, what), V.loc, "depends on %s" % (brief(bad[0], 80) if bad else ""))


def jac_dyn(ctx, V, sub_, pc, inside):
    """columns written by the loop over a list of arbitrary length"""
    E = V.E
    H0, H1 = E.mem0["H"], E.s.st.mem["H"]
    Ls = [L for L in E.s.loops if any(p.key[0] == "H" for p in L.phis.values())]
    if len(Ls) != 1:
        return ctx.unk("Jacobian", "%s: columns" % sub_, V.loc, "%d loops write the Jacobian" % len(Ls))
    L = Ls[0]
    ph = [p for p in L.phis.values() if p.key[0] == "H"][0]
    k = L.k
    if not L.counted or L.back is None:
        return ctx.unk("Jacobian", "%s: columns" % sub_, V.loc, "the loop is not a counted loop")
    ctx.expect(L.n is V.n or equal(L.n, V.n)[0] is True, "Jacobian", "%s: one step per listed variable" % sub_, L.loc, "%s steps" % brief(L.n, 80))
    ctx.expect(ph.entry is H0, "Jacobian", "%s: nothing is written before" % sub_, L.loc, "the block is modified before the columns are written")
    hdr = L.hmem["H"]
    back = L.back.mem["H"]
    rng = and_(geq(k, ZERO), lt(k, V.n), inside, *[x for kk, x in L.back.pc])
    ctx.eq("Jacobian", "%s: step k writes column k of the derivative to the column of variable k" % sub_, m_at(back, ROW, V.at(k)), Jel(ROW, k), L.loc, rng)
    ctx.eq("Jacobian", "%s: step k changes no other column" % sub_, m_at(back, ROW, COL), m_at(hdr, ROW, COL), L.loc, and_(rng, not_(eqn(COL, V.at(k)))))
    ctx.expect(not L.brs and not L.rets, "Jacobian", "%s: no step is skipped" % sub_, L.loc, "the loop can be left early")
    ctx.expect(H1 is ph.exit or H1 is ph.sym or (ph.exit is not None and equal(m_body(H1), m_body(ph.exit))[0] is True), "Jacobian", "%s: nothing is written afterwards" % sub_, L.loc,
               "the block is modified after the columns were written")


# ------------------------------------------------------------------------------------------------ R02
def r02(ctx):
    for tag, n in VARIANTS:
        for name in VIEWS:
            V = view(ctx, tag, n, name)
            E = V.E
            sub_ = "%s<%s>" % (name, "fixed" if n else "dynamic")
            pc = E.pc()
            H, b = E.mem0["H"], E.mem0["b"]
            i = iv(fresh("i"))

            def each(f):
                return and_(*[f(V.at(num(a))) for a in range(n)]) if n else mk_forall(i, V.n, f(V.at(i)))
            want = [("no index is negative", each(lambda x: geq(x, ZERO))), ("every index lies inside the parameter vector", each(lambda x: lt(x, E.X)))]
            if name == "UpdateHessian":
                want += [("the Hessian is square", eqn(m_rows(H), m_cols(H))), ("the linear term has as many rows as the Hessian", eqn(m_rows(b), m_rows(H))),
                         ("every index lies inside the Hessian", each(lambda x: lt(x, m_rows(H))))]
            elif name == "UpdateJacobian":
                want += [("the right-hand side has one row per error", eqn(m_rows(b), num(R_DIM))), ("the Jacobian has one row per error", eqn(m_rows(H), num(R_DIM))),
                         ("every index lies inside the Jacobian", each(lambda x: lt(x, m_cols(H))))]
            else:
                want += [("the output has one row per error", eqn(m_rows(b), num(R_DIM)))]
            for what, w in want:
                ctx.imp("accepted call", "%s: %s" % (sub_, what), pc, w, V.loc)
            check_throws(ctx, E, "refusal of " + sub_)
            for e in E.throws():
                ctx.expect(e.data["mem"]["model"] is E.mem0["model"], "refusal", "%s: the residual is unchanged" % sub_, e.loc, "modified") if e.data.get("mem") else None
            discharge_all(ctx, E.s, "access", sub_)
        for hb in ((True, False), (False, True)):
            null_call(ctx, tag, n, hb)
    # a fixed-size residual refuses a list of the wrong length
    P = ctx.prog()
    for f in P.by_q.get("mini_opt::MakeResidual", ()):
        t = TyRef(f["_m"], f["params"][0]["t"])
        if "initializer_list" not in t.key or not f.get("body"):
            continue

        def setup(E):
            E.l = E.s.sym(t, "in", ("list",))
            E.fn = E.s.sym(TyRef(f["_m"], f["params"][1]["t"]), "in", ("func",))
        try:
            E = Entry(ctx, f, None, lambda E: [E.l, E.s.root("func", E.fn) if E.fn.op != "ref" else E.fn], setup)
        except Undecided:
            raise
        l = E.s.val(E.l)
        fixed = not any("Dyn" in (p or "") for p in [TyRef(f["_m"], f["params"][1]["t"]).key])
        if fixed:
            ctx.imp("construction", "a fixed-size residual takes as many indices as it has parameters", E.pc(), eqn(lsize(l), num(3)), "include/mini_opt/residual.hpp:%s" % f.get("l"))
            check_throws(ctx, E, "construction")


def null_call(ctx, tag, n, hb):
    P = ctx.prog()
    V = view(ctx, tag, n, "UpdateHessian")
    r = model_record(P, tag)

    def setup(E):
        s = E.s
        E.m = sym_of_record(s, r, "model")
        E.x = s.root("x", sym_mat(mk("in", "x", sort="o"), mk("dim", "X", sort="i"), ONE))
        E.H = s.root("H", sym_mat(mk("in", "H", sort="o"), mk("dim", "Hr", sort="i"), mk("dim", "Hc", sort="i")))
        E.b = s.root("b", sym_mat(mk("in", "b", sort="o"), mk("dim", "Br", sort="i"), ONE))
    E = Entry(ctx, V.f, lambda E: E.m, lambda E: [E.x, ptr(E.H) if hb[0] else NULL, ptr(E.b) if hb[1] else NULL], setup, FUNCTORS)
    ctx.expect(E.dead or E.pc() is FALSE, "null outputs", "a null %s is refused (%s)" % ("linear term" if hb[0] else "Hessian", "fixed" if n else "dynamic"), V.loc, "accepted")
    check_throws(ctx, E, "null outputs")


# ------------------------------------------------------------------------------------------------ access obligations
def at_terms(n, out, memo):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x in memo:
            if isinstance(x, (tuple, list)):
                st.extend(x)
            continue
        memo.add(x)
        if x.op in ("at", "el", "lat"):
            out.add(x)
        st.extend(x.args)


def match(p, t, v, env):
    """one-sided matching of pattern p (with variable v) against t"""
    if p is v:
        if v in env:
            return env[v] is t
        env[v] = t
        return True
    if not contains(p, lambda x: x is v):
        return p is t
    if not isinstance(t, Node) or p.op != t.op or len(p.args) != len(t.args):
        return False
    for a, b in zip(p.args, t.args):
        if isinstance(a, Node):
            if not match(a, b, v, env):
                return False
        elif a != b:
            return False
    return True


def quantified(f):
    if f.op == "forall":
        return f
    if f.op == "lit" and f.args[0].op == "forall" and f.args[1] == "f" and f.args[2][0] == (1,):
        return f.args[0]
    return None


def instances(facts, goal, rounds=1):
    """instances of the quantified facts for the element reads of the goal"""
    out = []
    seen = set()
    pool = set()
    memo = set()
    at_terms(goal, pool, memo)
    for f in facts:
        q = quantified(f)
        if q is None:
            continue
        v, d, b = open_forall(q)
        pats = set()
        at_terms(b, pats, set())
        ts = []
        for p in pats:
            if not contains(p, lambda x: x is v):
                continue
            for t in pool:
                env = {}
                if match(p, t, v, env) and v in env and env[v] not in ts:
                    ts.append(env[v])
        for t in ts:
            i = or_(not_(and_(geq(t, ZERO), lt(t, d))), subst(b, {v: t}))
            if i not in seen:
                seen.add(i)
                out.append(i)
    return out


def ranges(ctx_):
    """0 <= k < n for the enclosing loops"""
    out = []
    for c in ctx_:
        k, n = c[1], c[2]
        out.append(geq(k, ZERO))
        if n is not None:
            out.append(lt(k, n))
    return out


def earlier(s, cx, facts):
    """what the previous iterations of the enclosing loops have checked"""
    out = []
    have = set(facts)
    for lid, k, n in cx:
        for L in s.loops:
            if L.lid != lid or L.k is not k or L.back is None:
                continue
            syms = _loops.unresolved({i: p for i, p in enumerate(L.phis.values())})
            for kind, c in L.back.pc[len(L.pc):]:
                if kind != "as" or k not in c.ivs or c.opq or _loops.has_any(c, syms):
                    continue
                j = iv(fresh("j"))
                out.append(mk_forall(j, add(k, ONE) if all(x in have for x in conjuncts(c)) else k, subst(c, {k: j})))
            break
    return out


def known(s, pc, cx, extra):
    facts = list(conjuncts(pc)) + ranges(cx) + [x for e in extra for x in conjuncts(e)]
    return facts + [x for e in earlier(s, cx, facts) for x in conjuncts(e)]


def holds(s, c, pc, cx, extra=()):
    """does the condition follow at this program point?  True / None"""
    facts = known(s, pc, cx, extra)
    goal = not_(c)
    if goal is FALSE:
        return True
    ins = instances(facts, and_(goal, *[f for f in facts if quantified(f) is None and f.size < 60]))
    goal = and_(goal)
    # facts connected to the goal
    rel = relevant(goal, facts + ins)
    p = and_(*rel)
    if p is FALSE:
        return True
    r = equal(and_(p, goal), FALSE, TRUE, 10)[0]
    if r is True:
        return True
    return True if entails(p, c)[0] is True else None


def atoms_set(n):
    out = set()
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
            continue
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        if x.op in ("at", "el", "dim", "size", "iv", "in", "fld", "rank", "rdim", "rows", "cols", "xrows"):
            out.add(x)
            if x.op in ("at", "el"):
                continue
        st.extend(x.args)
    return out


def relevant(goal, facts, depth=4):
    """facts that share atoms with the goal, transitively"""
    cur = atoms_set(goal)
    rest = [(f, atoms_set(f)) for f in facts if f.size < 400]
    take = []
    for _ in range(depth):
        new = [x for x in rest if x[1] & cur]
        if not new:
            break
        rest = [x for x in rest if not (x[1] & cur)]
        for f, a in new:
            take.append(f)
            cur = cur | a
    return take


def discharge_all(ctx, s, rule, subject, extra=(), only=None):
    n = 0
    seen = {}
    for kind, c, pc, cx, loc, fn in s.obl:
        if only and not only(kind, loc, fn):
            continue
        n += 1
        if c is TRUE:
            ctx.ok(rule, "%s: %s in %s" % (subject, kind, fn), loc)
            continue
        p = pc_cond(pc)
        key = (c, p, tuple(x[0] for x in cx))
        if key in seen:
            r = seen[key]
        else:
            r = seen[key] = holds(s, c, p, cx, extra)
        if r is True:
            ctx.ok(rule, "%s: %s in %s" % (subject, kind, fn), loc)
        else:
            unproved(ctx, s, rule, "%s: %s in %s" % (subject, kind, fn), loc, c, p, cx, extra)
    return n


def unproved(ctx, s, rule, subject, loc, c, p, cx, extra):
    """decide whether an obligation that does not follow is a violation"""
    facts = known(s, p, cx, extra)
    rel = relevant(not_(c), facts + instances(facts, and_(not_(c), *[f for f in facts if quantified(f) is None and f.size < 60])))
    if c.opq or any(x.opq for x in rel):
        return ctx.unk(rule, subject, loc, "not modelled: " + brief(c, 160))
    return ctx.bad(rule, subject, loc, "%s is relied on but does not follow from what was checked before" % brief(c, 200))


# ------------------------------------------------------------------------------------------------ R03
def r03(ctx):
    P = ctx.prog()
    k = iv(fresh("k"))
    half_sq = div(mk_sum([(k, num(R_DIM))], powi(Fel(k), 2)), num(2))
    for tag, n in VARIANTS:
        for name in VIEWS:
            V = view(ctx, tag, n, name)
            E = V.E
            sub_ = "%s<%s>" % (name, "fixed" if n else "dynamic")
            calls = [e for e in E.events if e.kind == "functor"]
            ctx.expect(len(calls) == 1 and not calls[0].ctx if calls else False, "one evaluation", sub_, V.loc, "the function is evaluated %d times" % len(calls))
            for e in calls:
                ctx.imp("one evaluation", "%s: on every way through" % sub_, E.pc(), e.cond(), e.loc)
            if name == "UpdateHessian":
                for pc, v, mem in E.returns:
                    ctx.eq("value", "%s returns half the squared norm" % sub_, v, half_sq, V.loc, pc_cond(pc))
            else:
                b1 = E.s.st.mem["b"]
                ctx.eq("value", "%s outputs the error vector" % sub_, m_body(b1), Fel(ROW), V.loc, and_(E.pc(), geq(ROW, ZERO), lt(ROW, num(R_DIM))))
        f = model_fn(P, tag, "Dimension")
        r = model_record(P, tag)
        E = Entry(ctx, f, lambda E: E.m, (), lambda E: setattr(E, "m", sym_of_record(E.s, r, "model")), FUNCTORS)
        ctx.eq("dimension", "the declared one (%s)" % tag, E.ret, num(R_DIM), "include/mini_opt/residual.hpp:%s" % f.get("l"))
    wrappers(ctx)
    quadratic(ctx)


def wrappers(ctx):
    """the public functions forward to the model with the same arguments"""
    P = ctx.prog()
    C = RES + "::Concept::"

    def fwd(name):
        def m(ip, e):
            r = ip.this_ref(e)
            vals = []
            for a in e["args"]:
                v = ip.rv(a)
                vals.append(v)
            ip.event("forward", e, name=name, this=r, vals=vals)
            return {"Dimension": mk("dim_of", r, sort="i"), "UpdateHessian": mk("val_of", r, sort="r")}.get(name, UNSET)
        return m
    models = {C + n: fwd(n) for n in ("Dimension", "ErrorVector", "UpdateHessian", "UpdateJacobian")}
    for name in ("Dimension", "ErrorVector", "UpdateHessian", "UpdateJacobian"):
        f = P.fn(RES + "::" + name)
        loc = "include/mini_opt/residual.hpp:%s" % f.get("l")

        def setup(E):
            s = E.s
            E.r = s.sym_object(RES, "residual")
            E.x = s.root("x", sym_mat(mk("in", "x", sort="o"), mk("dim", "X", sort="i"), ONE))
            E.H = s.root("H", sym_mat(mk("in", "H", sort="o"), mk("dim", "Hr", sort="i"), mk("dim", "Hc", sort="i")))
            E.b = s.root("b", sym_mat(mk("in", "b", sort="o"), mk("dim", "Br", sort="i"), ONE))
        def args(E):
            return {"Dimension": [], "UpdateHessian": [E.x, ptr(E.H), ptr(E.b)], "UpdateJacobian": [E.x, E.H, E.b], "ErrorVector": [E.x, E.b]}[name]
        E = Entry(ctx, f, lambda E: E.r, args, setup, models)
        fw = [e for e in E.events if e.kind == "forward"]
        ctx.expect(len(fw) == 1 and fw[0].data["name"] == name, "forwarding", "%s calls the model's %s" % (name, name), loc,
                   "calls " + (", ".join(e.data["name"] for e in fw) or "nothing"))
        for e in fw:
            got = [E.s.val(v) if v.op == "ref" else v for v in e.data["vals"]]
            want = [E.s.val(a) if a.op == "ref" else a for a in args(E)]
            same = len(got) == len(want) and all(a is b or unref(E, a) is unref(E, b) for a, b in zip(got, want))
            ctx.expect(same, "forwarding", "%s passes its arguments" % name, e.loc, "arguments differ: " + ", ".join(brief(x, 40) for x in got))
        if name in ("Dimension", "UpdateHessian"):
            ctx.expect(len(fw) == 1 and E.ret is {"Dimension": mk("dim_of", fw[0].data["this"], sort="i"), "UpdateHessian": mk("val_of", fw[0].data["this"], sort="r")}[name],
                       "forwarding", "%s returns the model's result" % name, loc, "returns %s" % brief(E.ret, 80))
        check_throws(ctx, E, "forwarding")
        for e in fw:
            ctx.expect(not any(c is not TRUE and contains(c, lambda x: x.op == "null") for c in ()), "forwarding", "%s only with a model" % name, e.loc)


def unref(E, v):
    if v.op in ("ptr", "cptr"):
        return mk("pt", v.args[0] if isinstance(v.args[0], Node) else v, sort="o")
    return v


def quadratic(ctx):
    from . import nls
    P = ctx.prog()
    f = P.fn(RES + "::QuadraticError")

    def setup(E):
        add_pattern_bound(nls.rdim_bound)
        E.r = E.s.sym_object(RES, "residual")
        E.x = E.s.root("x", sym_mat(mk("in", "x", sort="o"), mk("dim", "X", sort="i"), ONE))
    E = Entry(ctx, f, lambda E: E.r, lambda E: [E.x], setup, nls.MODELS)
    rv_, xv = E.mem0["residual"], E.mem0["x"]
    ev = [e for e in E.events if e.kind == "res_error"]
    k = iv(fresh("k"))
    loc = "source/residual.cc:%s" % f.get("l")
    if len(ev) != 1:
        return ctx.unk("quadratic error", "one evaluation", loc, "%d evaluations" % len(ev))
    v = rv_
    want = nls.half_sq(v, ev[0].data["x"])
    ctx.expect(ev[0].data["res"] is v, "quadratic error", "evaluates this residual", loc, "another residual")
    ctx.expect(nls_same(ev[0].data["x"], xv), "quadratic error", "at the given variables", loc, "at %s" % brief(ev[0].data["x"], 80))
    ctx.eq("quadratic error", "half the squared norm of the error vector", E.ret, want, loc, E.pc())


def nls_same(a, b):
    return a is b or (a.op == "mat" and b.op == "mat" and a.args[:3] == b.args[:3])


def made(ctx):
    """the residual holds the given indices in the given order and the given function"""
    P = ctx.prog()
    for nm in ("fixed_array", "fixed_list", "dyn_vector", "dyn_list"):
        f = P.fn("mo_witness::" + nm)

        def args(E):
            out = []
            E.given = {}
            for p in f["params"]:
                t = TyRef(f["_m"], p["t"])
                v = E.s.sym(t, "in", (p["n"],))
                E.given[p["n"]] = v
                out.append(E.s.root(p["n"], v) if t.isref or v.op in ("rec", "list") else v)
            return out
        E = Entry(ctx, f, None, args, None)
        loc = "include/mini_opt/residual.hpp"
        if E.dead or E.ret is None:
            ctx.bad("construction", nm, loc, "never returns")
            continue
        v = E.s.val(E.ret)
        impl = list(fields(v).values())[0] if v.op == "rec" and len(v.args) > 2 else None
        m = E.s.val(impl.args[0]) if impl is not None and impl.op == "uptr" else None
        if m is None or m.op != "rec":
            ctx.unk("construction", nm, loc, "object made: %s" % brief(v, 120))
            continue
        lists = [x for x in fields(m).values() if is_list(x)]
        g = E.given
        want = [g[n] for n in ("a", "b", "c") if n in g] or None
        if len(lists) != 1:
            ctx.unk("construction", nm, loc, "index list not found")
            continue
        l = lists[0]
        if want is None:
            src = E.s.val(g["index"])
            if nm.startswith("fixed"):
                want = [lat(src, num(i), builder=E.s.build) for i in range(3)]
        if want is not None:
            ctx.eq("construction", "%s: as many indices as given" % nm, lsize(l), num(len(want)), loc, E.pc())
            for i, w in enumerate(want):
                ctx.eq("construction", "%s: index %d is the one given" % (nm, i), lat(l, num(i), builder=E.s.build), w, loc, E.pc())
        else:
            i = iv(fresh("i"))
            ctx.eq("construction", "%s: as many indices as given" % nm, lsize(l), lsize(src), loc, E.pc())
            ctx.eq("construction", "%s: index i is the one given" % nm, lat(l, i, builder=E.s.build), lat(src, i, builder=E.s.build), loc, E.pc())
        fs = [x for x in fields(m).values() if not is_list(x)]
        ctx.expect(len(fs) == 1 and fs[0] is E.s.val(g["f"]), "construction", "%s: the function is the one given" % nm, loc, "another function is stored")


RULES = {"R01": r01, "R02": r02, "R03": r03}
