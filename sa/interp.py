"""Gated value-flow analysis of exported functions.

Every statement is analysed once per calling context on a symbolic store; branches are joined into gated values
(no path enumeration, no solver); counted loops are replaced by closed forms (sums, maps, folds, appended sequences);
loops without closed form keep loop-header symbols (phi) with their entry and back-edge values."""
from .values import *
from . import program as _prog
from .terms import _close


class Dead(Exception):
    pass


class Unsupported(Exception):
    pass


class St:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self):
        return St(dict(self.mem), self.pc)


class Frame:
    def __init__(self, fn, name, parent=None):
        self.fn, self.name, self.parent = fn, name, parent
        self.mod = fn["_m"] if fn else None
        self.env = {}
        self.this = None
        self.returns = []        # (pc, value, mem)
        self.scopes = [[]]
        self.breaks = []         # stack of lists
        self.conts = []
        self.retref = False
        self.lenv = None         # enclosing frame of a lambda
        self.pc0 = 0


class Event:
    __slots__ = ("kind", "pc", "ctx", "loc", "data", "seq", "fn", "mem")

    def __init__(self, kind, pc, ctx, loc, data, seq, fn):
        self.kind, self.pc, self.ctx, self.loc, self.data, self.seq, self.fn = kind, pc, ctx, loc, data, seq, fn

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.loc, {k: v for k, v in self.data.items() if k in ("name", "type")})

    def cond(self):
        return pc_cond(self.pc)


def once(v):
    """value of an initialiser evaluated once per process instead of at the point of use"""
    amb = atoms_of(v, lambda n: n.op.startswith("ambient:") or n.op == "now")
    return replace(v, {a: mk("once:" + a.op, *a.args, sort=a.sort) for a in amb}) if amb else v


class LoopInfo:
    def __init__(self, **k):
        self.__dict__.update(k)


def pc_cond(pc):
    return and_(*[c for _, c in pc])


def br_cond(pc):
    return and_(*[c for k, c in pc if k == "br"])


def merge_pc(c, p1, p2, n):
    """pc after joining two branches of c; n: length of the common prefix"""
    base = p1[:n]
    out = []
    for kind in ("br", "as"):
        e1 = and_(*[x for k, x in p1[n + 1:] if k == kind])
        e2 = and_(*[x for k, x in p2[n + 1:] if k == kind])
        if e1 is TRUE and e2 is TRUE:
            continue
        r = or_(and_(c, e1), and_(not_(c), e2))
        if r is not TRUE:
            out.append((kind, r))
    return base + tuple(out)


NAME_LIMIT = 40


def nonempty(m):
    """simplify the region bodies of m: an element is only ever taken from a region that is not empty"""
    R, C, base, ov = m.args

    def go(b, nr, nc):
        f = facts_of(and_(geq(nr, ONE), geq(nc, ONE)))
        f = {k: v for k, v in f.items() if v.op == "lit"}
        return assume_lits(b, f) if f else b
    nb = go(base, R, C)
    no = tuple(o[:4] + (go(o[4], o[2], o[3]),) for o in ov)
    if nb is base and all(a[4] is b[4] for a, b in zip(ov, no)):
        return m
    return mat(R, C, nb, no)


def _bare(k):
    return k.replace("const ", "").rstrip(" &")


class Interp:
    def __init__(self, prog, models=None, opts=None):
        self.p = prog
        self.models = models or {}
        self.opts = opts or {}
        self.track = self.opts.get("track")
        self.views = {}
        self.gtype, self.tls = {}, set()
        self.st = St({}, ())
        self.frames = []
        self.events = []
        self.loops = []
        self.ctx = ()
        self.dry = 0
        self.notes = []          # unsupported constructs met (make dependent results undecided)
        self.seq = 0
        self.analysed = {}       # usr -> qualified name of every function analysed
        self.callsites = set()
        self.bounds_on = bool(self.opts.get("bounds"))
        self.scal = self.opts.get("scalars", 0)
        self.obl = []            # conformity obligations
        self.writes = {}
        self.globals_init = {}
        self.depth = 0
        self.named_mats = {}
        from . import lib_eigen, lib_std
        self.eig = lib_eigen.Eigen(self)
        self.std = lib_std.Std(self)

    # ------------------------------------------------------------------------------------------ basics
    @property
    def fr(self):
        return self.frames[-1]

    def T(self, e):
        return TyRef(self.fr.mod, e["t"])

    def loc(self, e):
        if not e or "l" not in e:
            return self.fr.name if self.frames else "?"
        f = e.get("f")
        files = self.fr.mod.files
        fname = files[f] if isinstance(f, int) and f < len(files) else "?"
        return "%s:%s" % (fname.replace(_prog.REPO + "/", ""), e["l"])

    def note(self, msg, e=None):
        m = (self.loc(e) if e else "?", msg)
        if m not in self.notes:
            self.notes.append(m)

    def event(self, kind, e, **data):
        if self.dry:
            return None
        self.seq += 1
        ev = Event(kind, self.st.pc, self.ctx, self.loc(e), data, self.seq, self.fr.fn["q"] if self.frames and self.fr.fn else "")
        if kind in ("throw", "throw_if"):
            ev.mem = dict(self.st.mem)
        self.events.append(ev)
        return ev

    def oblige(self, kind, cond, e):
        """an access / conformity condition that the program relies on at this point"""
        if self.dry:
            return
        c = self.simp(cond)
        self.obl.append((kind, c, self.st.pc, self.ctx, self.loc(e), self.fr.fn["q"] if self.frames and self.fr.fn else ""))

    def make(self, t, args, e):
        """object of type t constructed from argument expressions"""
        r = self.record(t)
        if t.kind == "rec" and r is not None:
            vals = None
            cands = []
            for m in r.get("methods", []):
                f = self.p.funcs.get(m["u"])
                if f is not None and f.get("kind") == "ctor" and f.get("body") is not None and not f.get("defaulted"):
                    cands.append(f)
            cands = [f for f in cands if len(f["params"]) == len(args) or (len(f["params"]) > len(args) and all(p.get("def") for p in f["params"][len(args):]))]
            if len(args) == 1 and self.T(args[0]).key == t.key:
                return self.rv(args[0])
            if not cands:       # instances of a constructor template
                cands = [f for f in self.p.ctors(r["u"]) if len(f["params"]) == len(args)]
                if len(cands) > 1:
                    same = lambda f: all(_bare(TyRef(f["_m"], p["t"]).key) == _bare(self.T(a).key) for a, p in zip(args, f["params"]))
                    cands = [f for f in cands if same(f)] or cands
                    if len({(f.get("f"), f.get("l")) for f in cands}) == 1:
                        cands = cands[:1]
            if len(cands) == 1:
                f = cands[0]
                avs = [self.arg(a, p, f) for a, p in zip(args, f["params"])]
                return self.construct(f, args, t, e, avs)
            if not args:
                return self.default(t, "make@" + self.site(e))
        return None

    def symptr(self, v):
        root = "*" + show_key(v)
        if root not in self.st.mem:
            self.st.mem[root] = mk("obj", v, sort="o")
        return cptr(ref(root), self.truth(v))

    def facts(self, pc=None):
        pc = self.st.pc if pc is None else pc
        f = _facts_memo.get(pc)
        if f is None:
            f = facts_of(pc_cond(pc))
            f = {k: v for k, v in f.items() if v.op == "lit"}
            if len(_facts_memo) > 5000:
                _facts_memo.clear()
            _facts_memo[pc] = f
        return f

    def simp(self, n):
        f = self.facts()
        if not f:
            return n
        return _assume(n, f)

    def known(self, c):
        """is boolean c implied by the path condition (syntactically)"""
        return self.simp(c) is TRUE

    # ------------------------------------------------------------------------------------------ symbolic values
    def sym(self, t, op, args):
        k = t.kind
        if k in ("int", "uint"):
            return mk(op, *args, sort="i")
        if k == "flt":
            return mk(op, *args, sort="r")
        if k == "bool":
            return bsym(mk(op, *args, sort="i"))
        if k == "enum":
            n = mk(op, *args, sort="e")
            ENUM_OF[n] = t.raw["en"]
            return n
        n = mk(op, *args, sort="o")
        if k == "mat":
            r, c = t.targ(1), t.targ(2)
            rr = mk("rows", n) if r == "-1" else num(int(r))
            cc = mk("cols", n) if c == "-1" else num(int(c))
            return sym_mat(n, rr, cc)
        if k == "list":
            et = t.targ(0)
            if t.q == "std::array":
                sz = int(t.targ(1))
                return mk("list", tkey(et), *[("one", self.sym(et, "at", (n, num(i)))) for i in range(sz)], sort="o")
            return sym_list(tkey(et), n)
        if k == "str":
            return lst("str", ("sym", n))
        if k == "opt":
            return opt(bsym(mk("has", n, sort="i")), self.sym(t.targ(0), "val", (n,)))
        if k == "var":
            m = t.ntargs()
            idx = mk("altidx", n, sort="e")
            VAR_N[idx] = m
            return rec("variant", ("idx",) + tuple("a%d" % i for i in range(m)),
                       [idx] + [self.sym(t.targ(i), "alt%d" % i, (n,)) for i in range(m)])
        if k == "ptr":
            root = "*" + show_key(n)
            if root not in self.st.mem:
                pt = t.pointee()
                self.st.mem[root] = self.sym(pt, "deref", (n,))
            return cptr(ref(root), bsym(mk("nonnull", n, sort="i")))
        if k == "uptr" and t.targ(0) is not None and self.record(t.targ(0)) is not None and not self.record(t.targ(0)).get("abstract"):
            root = "*" + show_key(n)
            if root not in self.st.mem:
                self.st.mem[root] = self.sym(t.targ(0), "deref", (n,))
            return n
        if k == "rec":
            r = self.record(t)
            if r is not None:
                fs = self.all_fields(r)
                return rec(r["q"], [f["n"] for _, f in fs],
                           [self.sym(TyRef(m, f["t"]), "fld", (n, f["n"])) for m, f in fs])
        return n

    def record(self, t):
        u = t.raw.get("rec")
        return self.p.records.get(u)

    def all_fields(self, r):
        out = []
        for b in r.get("bases", ()):
            bt = TyRef(r["_m"], b)
            br = self.record(bt)
            if br is not None:
                out += self.all_fields(br)
        return out + [(r["_m"], f) for f in r["fields"]]

    def build(self, tk, op, args):
        t = TYPES.get(tk)
        if t is None:
            return mk(op, *args, sort="o")
        return self.sym(t, op, args)

    def default(self, t, tag):
        """value of a default-initialised object of type t (scalars: unset)"""
        k = t.kind
        if k in ("int", "uint", "flt", "bool", "enum"):
            n = self.sym(t, "uninit", (tag,))
            return n
        if k == "mat":
            r, c = t.targ(1), t.targ(2)
            rr = ZERO if r == "-1" else num(int(r))
            cc = ZERO if c == "-1" else num(int(c))
            return sym_mat(mk("uninit", tag, sort="o"), rr, cc)
        if k == "list":
            et = t.targ(0)
            if t.q == "std::array":
                return mk("list", tkey(et), *[("one", self.default(et, tag + "[%d]" % i)) for i in range(int(t.targ(1)))], sort="o")
            return lst(tkey(et))
        if k == "str":
            return lst("str")
        if k == "opt":
            return NULLOPT
        if k == "var":
            m = t.ntargs()
            q = "#variant"
            return rec("variant", ("idx",) + tuple("a%d" % i for i in range(m)),
                       [enumv(q, 0)] + [self.default(t.targ(0), tag + ".a0")] + [UNSET] * (m - 1))
        if k in ("ptr", "uptr"):
            return NULL
        if k == "fn":
            return mk("nofn", sort="o")
        if k == "rec":
            r = self.record(t)
            if r is not None:
                vals = []
                fs = self.all_fields(r)
                for m, f in fs:
                    ft = TyRef(m, f["t"])
                    if f.get("init"):
                        vals.append(self.in_module(m, lambda f=f: self.convert(self.rv(f["init"]), ft)))
                    else:
                        vals.append(self.default(ft, tag + "." + f["n"]))
                return rec(r["q"], [f["n"] for _, f in fs], vals)
        return mk("defobj", t.key, tag, sort="o")

    def in_module(self, m, f):
        fr = Frame({"_m": m, "q": "<init>"}, self.fr.name + "/init" if self.frames else "init")
        fr.fn = {"_m": m, "q": self.fr.fn["q"] if self.frames else "<init>"}
        self.frames.append(fr)
        try:
            return f()
        finally:
            self.frames.pop()

    # ------------------------------------------------------------------------------------------ memory
    def load(self, r):
        if r.op != "ref":
            if r.op == "gite":
                return merge(r.args[0], self.load(r.args[1]), self.load(r.args[2]))
            return r
        v = self.st.mem.get(r.args[0])
        if v is None:
            raise Unsupported("read of unknown storage " + r.args[0])
        if self.track:
            self.touch(r, False)
        for s in r.args[1]:
            v = self.proj(v, s)
        return v

    def proj(self, v, s):
        k = s[0]
        if v.op == "gite":
            v = self.simp(v)
            if v.op == "gite":
                return merge(v.args[0], self.proj(v.args[1], s), self.proj(v.args[2], s))
        if k == "f":
            return rget(v, s[1])
        if k == "i":
            return lat(v, s[1], self.build)
        if k == "j":
            from .lib_std import jat
            return jat(v, s[1])
        if v.op in ("opq", "unset"):
            return opaque("view", v) if v.op == "opq" else v
        if k == "el":
            return m_at(v, s[1], s[2])
        if k == "blk":
            return m_read(v, *s[1:])
        if k == "diag":
            b = m_body(v)
            return mat(self.mindim(v), ONE, subst(b, {COL: ROW}))
        if k == "T":
            return m_transpose(v)
        if k == "tri":
            return self.eig.tri_value(v, s[1])
        if k == "sym":
            return m_symm_lower(v) if s[1] == "L" else m_transpose(m_symm_lower(m_transpose(v)))
        if k == "asmat":
            return v
        raise Unsupported("projection " + k)

    def mindim(self, m):
        a, b = m.args[0], m.args[1]
        return a if a is b else min_(a, b)

    def store(self, r, val):
        if r.op == "gite":
            c, a, b = r.args
            oa, ob = self.load(a), self.load(b)
            self.store(a, merge(c, val, oa))
            ob = self.load(b)
            self.store(b, merge(c, ob, val))
            return
        if r.op != "ref":
            self.note("store through unknown reference")
            return
        root, path = r.args
        if self.track:
            self.touch(r, True)
        old = self.st.mem.get(root)
        if not path:
            self.st.mem[root] = val
        else:
            if old is None:
                raise Unsupported("write of unknown storage " + root)
            self.st.mem[root] = self.embed(old, path, val)
        if not self.dry:
            self.writes.setdefault((root, path[0][1] if path and path[0][0] == "f" else ""), self.cur_loc)

    cur_loc = "?"
    track = None        # predicate (root, path) -> key of the shared datum it touches, or None

    def touch(self, r, write):
        if r.op == "gite":
            self.touch(r.args[1], write)
            self.touch(r.args[2], write)
        elif r.op == "ref":
            k = self.track(r.args[0], r.args[1])
            if k is not None:
                ev = self.event("access", None, key=k, write=write)
                if ev is not None:
                    ev.loc = self.cur_loc

    def embed(self, v, path, val):
        if not path:
            return val
        s, rest = path[0], path[1:]
        k = s[0]
        if v.op == "gite":
            v = self.simp(v)
            if v.op == "gite":
                return merge(v.args[0], self.embed(v.args[1], path, val), self.embed(v.args[2], path, val))
        if k == "f":
            return rset(v, s[1], self.embed(rget(v, s[1]), rest, val))
        if k == "i":
            new = self.embed(lat(v, s[1], self.build), rest, val) if rest else val
            return self.list_set(v, s[1], new)
        if k == "j":
            from .lib_std import jat, jset
            return jset(v, s[1], self.embed(jat(v, s[1]), rest, val))
        if v.op != "mat":
            return opaque("store", v, val)
        if k == "el":
            return m_setat(v, s[1], s[2], val)
        if k == "blk":
            old = m_read(v, *s[1:])
            new = self.embed(old, rest, val)
            if new.op != "mat":
                return opaque("store", v, new)
            return m_write(v, *s[1:], new)
        if k == "diag":
            old = self.proj(v, s)
            new = self.embed(old, rest, val)
            nb = m_body(new)
            return m_ewise(lambda x: ite(eqn(ROW, COL), nb, x), mat(v.args[0], v.args[1], m_body(v)))
        if k == "T":
            return m_transpose(self.embed(m_transpose(v), rest, val))
        if k == "tri":
            return self.eig.tri_store(v, s[1], self.embed(v, rest, val))
        if k in ("sym", "asmat"):
            return self.embed(v, rest, val)
        return opaque("store", v, val)

    def list_set(self, l, i, new):
        if l.op == "gite":
            return gite(l.args[0], self.list_set(l.args[1], i, new), self.list_set(l.args[2], i, new))
        if l.op != "list":
            return opaque("lset", l, new)
        segs = list(l.args[1:])
        pos = ZERO
        if all(s[0] == "one" for s in segs):
            if is_num(i):
                j = int(i.args[0])
                if 0 <= j < len(segs):
                    segs[j] = ("one", new)
                return mk("list", l.args[0], *segs, sort="o")
            segs = [("one", merge(eqn(i, num(j)), new, s[1])) for j, s in enumerate(segs)]
            return mk("list", l.args[0], *segs, sort="o")
        d = sub(lsize(l), i)
        if segs and segs[-1][0] == "one" and d is ONE:
            segs[-1] = ("one", new)
            return mk("list", l.args[0], *segs, sort="o")
        if len(segs) == 1:
            # generic: element-wise sequence with one changed position
            k = iv(fresh("u"))
            n = lsize(l)
            old = lat(l, k, self.build)
            return lst(l.args[0], gen(k, n, merge(eqn(k, i), new, old)))
        return opaque("lset", l, i, new)

    def root(self, name, val):
        self.st.mem[name] = val
        return ref(name)

    def local(self, name, ident):
        fr = self.fr
        return "%s.%s#%s" % (fr.name, name, ident)

    # ------------------------------------------------------------------------------------------ expressions
    def rv(self, e):
        v = self.ev(e)
        return self.val(v)

    def val(self, v):
        if v.op == "ref":
            return self.load(v)
        if v.op == "gite" and _has_ref(v):
            return merge(v.args[0], self.val(v.args[1]), self.val(v.args[2]))
        return v

    def lv(self, e):
        """reference designated by an expression (temporaries are materialised)"""
        v = self.ev(e)
        if v.op == "ref" or (v.op == "gite" and _has_ref(v)):
            return v
        name = "%s.tmp@%s" % (self.fr.name, self.site(e))
        return self.root(name, v)

    def site(self, e):
        return "%s:%s" % (e.get("l"), e.get("cl", ""))

    def ev(self, e):
        if e is None:
            return UNSET
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("expression kind %s %s" % (k, e.get("cls", "")), e)
            for c in e.get("c", []):
                if isinstance(c, dict) and "k" in c:
                    try:
                        self.ev(c)
                    except (KeyError, TypeError):
                        pass
            return opaque("expr:" + k + self.site(e))
        if "l" in e:
            self.cur_loc = self.loc(e)
        return m(e)

    def e_int(self, e): return num(int(e["v"]))

    def e_flt(self, e):
        v = e["v"]
        if "nan" in v:
            return NAN
        if "inf" in v:
            return neg(INF) if v.startswith("-") else INF
        return num(Fraction(repr(float(v))))

    def e_bool(self, e): return TRUE if e["v"] else FALSE
    def e_null(self, e): return NULL
    def e_str(self, e): return mk("strlit", e["v"], sort="o")
    def e_this(self, e): return ptr(self.fr.this)
    def e_dinit(self, e): return self.ev(e["e"])

    def e_enum(self, e):
        t = self.T(e)
        q = t.raw.get("en") or e["q"].rsplit("::", 1)[0]
        return enumv(q, int(e["v"]))

    def e_zero(self, e):
        return self.zero(self.T(e))

    def zero(self, t):
        k = t.kind
        if k in ("int", "uint", "flt"):
            return ZERO
        if k == "bool":
            return FALSE
        if k == "enum":
            return enumv(t.raw["en"], 0)
        if k == "ptr":
            return NULL
        if k == "array":
            return lst(tkey(TyRef(t.m, t.raw["arr"])), *[("one", self.zero(TyRef(t.m, t.raw["arr"]))) for _ in range(t.raw.get("n", 0))])
        if k == "uptr" and t.targ(0) is not None and self.record(t.targ(0)) is not None and not self.record(t.targ(0)).get("abstract"):
            root = "*" + show_key(n)
            if root not in self.st.mem:
                self.st.mem[root] = self.sym(t.targ(0), "deref", (n,))
            return n
        if k == "rec":
            r = self.record(t)
            if r is not None:
                fs = self.all_fields(r)
                return rec(r["q"], [f["n"] for _, f in fs], [
                    self.in_module(m, lambda f=f, m=m: self.convert(self.rv(f["init"]), TyRef(m, f["t"]))) if f.get("init") else self.zero(TyRef(m, f["t"]))
                    for m, f in fs])
        if k == "list" and t.q == "std::array":
            et = t.targ(0)
            return mk("list", tkey(et), *[("one", self.zero(et)) for _ in range(int(t.targ(1)))], sort="o")
        return self.default(t, "zero@" + self.fr.name)

    def e_ref(self, e):
        if e.get("dk") == "fn":
            return mk("fnptr", e["fn"]["u"], e["fn"]["q"], sort="o")
        f = self.fr
        while f is not None:
            b = f.env.get(e["id"])
            if b is not None:
                if b.op == "lazy":
                    return b
                return b
            f = f.lenv
        if "cv" in e:
            return self.cval(e)
        if "cf" in e:
            return self.e_flt({"v": e["cf"]})
        if e.get("g"):
            return self.global_ref(e)
        self.note("unbound variable %s" % e["n"], e)
        return opaque("var:" + e["n"])

    def cval(self, e):
        t = self.T(e)
        v = int(e["cv"]) if e["cv"] not in ("true", "false") else int(e["cv"] == "true")
        if t.kind == "bool":
            return TRUE if v else FALSE
        if t.kind == "enum":
            return enumv(t.raw["en"], v)
        return num(v)

    def global_ref(self, e):
        root = "G:" + e.get("q", e["n"])
        if root not in self.st.mem:
            t = self.T(e)
            g = None
            for x in self.p.globals.values():
                if x["q"] == e.get("q") and (x["_m"] is self.fr.mod or g is None):
                    g = x
            val = None
            if g is not None and g.get("init") and (g.get("const") or g.get("cx")):
                try:
                    val = self.in_module(g["_m"], lambda: self.convert(self.rv(g["init"]), TyRef(g["_m"], g["t"])))
                except (Unsupported, Dead):
                    val = None
            self.gtype[root] = t
            if g is not None and g.get("tls"):
                self.tls.add(root)
            if val is None:
                val = self.sym(t, "global", (e.get("q", e["n"]),))
            elif g is not None and not g.get("tls"):
                val = once(val)
            self.globals_init[root] = val
            self.st.mem[root] = val
        return ref(root)

    def e_mem(self, e):
        b = self.ev(e["b"])
        if e.get("ar"):
            b = self.deref(self.val(b), e)
        n = e["n"]
        if b.op == "ref":
            return rsub(b, ("f", n))
        if b.op == "gite" and _has_ref(b):
            return gite(b.args[0], rsub(b.args[1], ("f", n)) if b.args[1].op == "ref" else rget(self.val(b.args[1]), n),
                        rsub(b.args[2], ("f", n)) if b.args[2].op == "ref" else rget(self.val(b.args[2]), n))
        return rget(b, n)

    def deref(self, v, e=None):
        if v.op in ("ptr", "cptr"):
            if v.op == "cptr" and not self.dry:
                self.event("deref", e, ok=v.args[1])
            return v.args[0]
        if v.op == "gite":
            v = self.simp(v)
            if v.op == "gite":
                a, b = v.args[1], v.args[2]
                if a.op == "null":
                    return self.deref(b, e)
                if b.op == "null":
                    return self.deref(a, e)
                return gite(v.args[0], self.deref(a, e), self.deref(b, e))
            return self.deref(v, e)
        if v.op == "it":
            return rsub(v.args[0], ("i", v.args[1]))
        if v.op == "null":
            self.event("deref", e, ok=FALSE)
            raise Dead()
        root = "*" + show_key(v)
        if root not in self.st.mem:
            self.st.mem[root] = mk("obj", v, sort="o")
        return ref(root)

    def e_cast(self, e):
        ck = e["ck"]
        if ck == "ToVoid":
            self.ev(e["e"])
            return UNSET
        if "cv" in e and ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "NoOp"):
            if self.T(e).kind in ("int", "uint", "bool"):
                return self.cval(e)
        v = self.ev(e["e"])
        if ck in ("NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion"):
            return v
        if ck == "NullToPointer":
            return NULL
        if ck == "LValueBitCast" or ck == "BitCast":
            return v
        x = self.val(v)
        t = self.T(e)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return self.truth(x)
        if ck == "PointerToBoolean":
            return self.truth(x)
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingCast"):
            if t.kind == "enum":
                return fun("toenum:" + t.raw["en"], x, sort="e")
            if x.op in ("enum",) :
                return num(x.args[1])
            if x.sort == "e":
                return fun("enumval", x, sort="i")
            if x.sort == "b":
                return mul_ind(x, ONE)
            if ck == "IntegralCast" and t.kind == "uint" and is_num(x) and x.args[0] < 0:
                return num(x.args[0] + 2 ** int(t.raw.get("w", 64)))
            return x
        if ck == "FloatingToIntegral":
            return fun("trunc", x, sort="i")
        return x

    def truth(self, x):
        if x.sort == "b":
            return x
        if x.op == "ptr":
            return TRUE
        if x.op == "cptr":
            return x.args[1]
        if x.op == "null" or x.op == "nofn":
            return FALSE
        if x.op == "gite":
            return gite(x.args[0], self.truth(x.args[1]), self.truth(x.args[2]))
        if x.op == "rec" and x.args[0] == "optional":
            return rget(x, "has")
        if x.op == "enum":
            return TRUE if x.args[1] else FALSE
        if is_scalar(x) and x.op not in ("opq",):
            return cmp(x, "!=", ZERO)
        if x.op in ("uptr", "lam", "fnptr", "ilnode"):
            return TRUE
        if x.op == "opq":
            return mk("opq", "truth", x, sort="b")
        return bsym(mk("nonnull", x, sort="i"))

    def rb(self, e):
        return self.truth(self.rv(e))

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            r = self.lv(e["e"])
            old = self.load(r)
            if old.op == "it":
                new = mk("it", old.args[0], add(old.args[1], num(1 if op == "++" else -1)), sort="o")
            else:
                new = add(old, num(1 if op == "++" else -1)) if is_scalar(old) and old.op != "opq" else opaque("inc", old)
            self.store(r, new)
            return old if e.get("post") else r
        if op == "&":
            v = self.ev(e["e"])
            if v.op == "ref":
                return ptr(v)
            if v.op == "gite" and _has_ref(v):
                return gite(v.args[0], ptr(v.args[1]), ptr(v.args[2]))
            return ptr(self.root("%s.addr@%s" % (self.fr.name, self.site(e)), v))
        if op == "*":
            return self.deref(self.rv(e["e"]), e)
        x = self.rv(e["e"])
        if op == "!":
            return not_(self.truth(x))
        if op == "-":
            return neg(x) if is_scalar(x) and x.op != "opq" else self.eig.neg(x)
        if op == "+":
            return x
        return fun("un" + op, x)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.rb(e["a"])
            a = self.simp(a)
            if op == "&&" and a is FALSE:
                return FALSE
            if op == "||" and a is TRUE:
                return TRUE
            b = self.fork_value(a if op == "&&" else not_(a), lambda: self.rb(e["b"]), FALSE if op == "&&" else TRUE)
            return and_(a, b) if op == "&&" else or_(a, b)
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        a, b = self.rv(e["a"]), self.rv(e["b"])
        t = self.T(e)
        return self.arith(op, a, b, t, e)

    def fork_value(self, c, f, default):
        """evaluate f under the additional condition c (value used only when c holds)"""
        if c is TRUE:
            return f()
        s0 = self.st
        n = len(s0.pc)
        self.st = St(dict(s0.mem), s0.pc + (("br", c),))
        try:
            v = f()
        except Dead:
            self.st = St(s0.mem, s0.pc + (("as", not_(c)),))
            return default
        s1 = self.st
        self.st = self.join(c, s1, St(s0.mem, s0.pc + (("br", not_(c)),)), n)
        return v

    def arith(self, op, a, b, t=None, e=None):
        if a.op == "gite" and not is_scalar(a) and a.sort not in ("b", "e") and a.op != "opq":
            a = self.simp(a)
        if op in ("==", "!="):
            r = self.equal_vals(a, b)
            return r if op == "==" else not_(r)
        if a.op == "it" and op in ("+", "-"):
            if b.op == "it":
                return sub(a.args[1], b.args[1])
            return mk("it", a.args[0], add(a.args[1], b) if op == "+" else sub(a.args[1], b), sort="o")
        if a.sort == "b":
            a = mul_ind(a, ONE) if a.op != "opq" else a
        if b.sort == "b":
            b = mul_ind(b, ONE) if b.op != "opq" else b
        if a.op == "opq" or b.op == "opq" or not (is_scalar(a) and is_scalar(b)):
            if op in ("<", ">", "<=", ">="):
                if a.sort == "e" and b.sort == "e" or a.op == "it":
                    if a.op == "it" and b.op == "it":
                        return cmp(a.args[1], op, b.args[1])
                    return bsym(fun("enumcmp" + op, a, b))
                return mk("opq", "cmp" + op, a, b, sort="b")
            if op in ("+", "-") and any(x.op == "now" or x.op.startswith("chrono:") for x in (a, b)) and "opq" not in (a.op, b.op):
                return mk("chrono:arith" + op, a, b, sort="o")
            return opaque("arith" + op, a, b)
        if op in ("<", ">", "<=", ">="):
            return cmp(a, op, b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if t is not None and t.kind in ("int", "uint"):
                if is_num(a) and is_num(b) and b.args[0] != 0:
                    return num(int(a.args[0] / b.args[0]))
                return fun("idiv", a, b, sort="i")
            if is_num(b) and b.args[0] == 0:
                return fun("div0", a)
            return div(a, b)
        if op == "%":
            return fun("mod", a, b, sort="i")
        return fun("bin" + op, a, b, sort="i")

    def equal_vals(self, a, b):
        if a is b and a.op not in ("nan",):
            return TRUE
        if a.op == "gite" and a.sort != "e" and not is_scalar(a):
            return gite(a.args[0], self.equal_vals(a.args[1], b), self.equal_vals(a.args[2], b))
        if b.op == "gite" and b.sort != "e" and not is_scalar(b):
            return gite(b.args[0], self.equal_vals(a, b.args[1]), self.equal_vals(a, b.args[2]))
        for x, y in ((a, b), (b, a)):
            if y.op == "null":
                if x.op == "lam" or x.op == "fnptr":
                    return FALSE
                return not_(self.truth(x))
        if b.op == "enum" and a.op != "enum":
            return fin_eq(a, (b.args[1],), self.enum_dom(b.args[0], a))
        if a.op == "enum" and b.op != "enum":
            return fin_eq(b, (a.args[1],), self.enum_dom(a.args[0], b))
        if a.op == "enum" and b.op == "enum":
            return TRUE if a.args[1] == b.args[1] else FALSE
        if a.op == "it" and b.op == "it":
            return eqn(a.args[1], b.args[1])
        for x, y in ((a, b), (b, a)):
            if x.op == "fn:enumval" and is_num(y):
                z = x.args[0]
                q = enum_of(z)
                return fin_eq(z, (int(y.args[0]),), self.enum_dom(q, z)) if q else eqn(x, y)
        if a.op == "fn:enumval" and b.op == "fn:enumval":
            return self.equal_vals(a.args[0], b.args[0])
        if a.op == "rec" and a.args[0] == "optional" and b.op == "rec" and b.args[0] == "optional":
            return or_(and_(not_(rget(a, "has")), not_(rget(b, "has"))), and_(rget(a, "has"), rget(b, "has"), self.equal_vals(rget(a, "val"), rget(b, "val"))))
        if a.sort == "b" and b.sort == "b":
            return or_(and_(a, b), and_(not_(a), not_(b)))
        if a.sort == "b":
            a = mul_ind(a, ONE)
        if b.sort == "b":
            b = mul_ind(b, ONE)
        if is_scalar(a) and is_scalar(b) and a.op != "opq" and b.op != "opq":
            return eqn(a, b)
        if a.op == "opq" or b.op == "opq":
            return mk("opq", "eq", a, b, sort="b")
        if a.sort == "e" and b.sort == "e":
            return bsym(fun("enumeq", *sorted((a, b))))
        return bsym(fun("eq", a, b))

    def enum_dom(self, q, x):
        if q == "#variant":
            for n, m in VAR_N.items():
                if n is x:
                    return tuple(range(m))
            return (0, 1)
        e = self.p.enums.get(q)
        if e is None:
            return (0, 1, 2, 3)
        return tuple(sorted({int(x["v"]) for x in e["e"]}))

    def e_cond(self, e):
        c = self.simp(self.rb(e["c"]))
        if c is TRUE:
            return self.ev(e["a"])
        if c is FALSE:
            return self.ev(e["b"])
        box = {}
        s0 = self.st
        n = len(s0.pc)
        alive = []
        for key, cond in (("a", c), ("b", not_(c))):
            self.st = St(dict(s0.mem), s0.pc + (("br", cond),))
            try:
                v = self.ev(e[key])
                box[key] = v if e.get("gl") else self.val(v)
                alive.append(self.st)
            except Dead:
                alive.append(None)
        if alive[0] is None and alive[1] is None:
            self.st = None
            raise Dead()
        self.st = self.join(c, alive[0], alive[1], n)
        if alive[0] is None:
            return box["b"]
        if alive[1] is None:
            return box["a"]
        a, b = box["a"], box["b"]
        if a is b:
            return a
        if a.op == "ref" or b.op == "ref":
            if e.get("gl") and a.op == "ref" and b.op == "ref":
                return gite(c, a, b)
            a, b = self.val(a), self.val(b)
        return merge(c, a, b)

    def join(self, c, s1, s2, n):
        if s1 is None and s2 is None:
            return None
        if s1 is None or s2 is None:
            s = s2 if s1 is None else s1
            return s
        if s1.mem is s2.mem:
            return St(s1.mem, merge_pc(c, s1.pc, s2.pc, n))
        mem = dict(s2.mem)
        for k, a in s1.mem.items():
            b = s2.mem.get(k)
            if b is None:
                mem[k] = a
            elif a is not b:
                mem[k] = self.abbrev_join(k, merge(c, a, b))
        return St(mem, merge_pc(c, s1.pc, s2.pc, n))

    def abbrev_join(self, root, v):
        return self.tidy(root, v)

    def e_asg(self, e):
        op = e["op"]
        if op == "=":
            v = self.rv(e["b"])
            r = self.lv(e["a"])
            v = self.convert(v, self.T(e["a"]))
            self.cur_loc = self.loc(e)
            self.store(r, v)
            self.assigned(e, r, v)
            return r
        b = self.rv(e["b"])
        r = self.lv(e["a"])
        a = self.load(r)
        v = self.arith(op[:-1], a, b, self.T(e["a"]), e)
        self.cur_loc = self.loc(e)
        self.store(r, v)
        return r

    def assigned(self, e, r, v):
        pass

    def convert(self, v, t):
        """implicit adjustments the exporter folds away"""
        k = t.kind
        if k == "opt" and not (v.op == "rec" and v.args[0] == "optional") and v.op not in ("gite", "opq", "unset"):
            return opt(TRUE, v)
        if k == "str" and v.op == "strlit":
            return string(v.args[0])
        if k == "bool" and v.sort in ("i", "r") and v.op != "opq":
            return self.truth(v)
        if k == "flt" and v.op == "mat":
            return m_at(v, ZERO, ZERO)
        if k in ("flt", "int", "uint") and v.sort == "b" and v.op != "opq":
            return mul_ind(v, ONE)
        return v

    def e_idx(self, e):
        a = self.ev(e["a"])
        i = self.rv(e["b"])
        if a.op == "ref":
            return rsub(a, ("i", i))
        if a.op in ("ptr", "cptr"):
            return rsub(a.args[0], ("i", i))
        return lat(self.val(a), i, self.build)

    def e_stdil(self, e):
        v = self.ev(e["e"])
        return v

    def e_ilist(self, e):
        t = self.T(e)
        k = t.kind
        if k == "array":
            et = TyRef(t.m, t.raw["arr"])
            vals = [("one", self.convert(self.rv(x), et)) for x in e["e"]]
            while len(vals) < t.raw.get("n", 0):
                vals.append(("one", self.rv(e["fill"]) if e.get("fill") else self.zero(et)))
            return mk("list", tkey(et), *vals, sort="o")
        if k == "rec":
            r = self.record(t)
            if r is not None:
                fs = self.all_fields(r)
                vals = []
                for i, (m, f) in enumerate(fs):
                    ft = TyRef(m, f["t"])
                    if i < len(e["e"]):
                        x = e["e"][i]
                        if x["k"] == "dinit":
                            vals.append(self.in_module(m, lambda: self.convert(self.rv(f["init"]), ft)) if f.get("init") else self.zero(ft))
                        else:
                            vals.append(self.convert(self.rv(x), ft))
                    else:
                        vals.append(self.zero(ft))
                return rec(r["q"], [f["n"] for _, f in fs], vals)
        if k == "list" and t.q == "std::array":
            et = t.targ(0)
            inner = e["e"][0] if e["e"] else None
            if inner is not None and inner["k"] == "ilist":
                return self.rv(inner)
            n = int(t.targ(1))
            vals = [("one", self.rv(x)) for x in e["e"]]
            while len(vals) < n:
                vals.append(("one", self.zero(et)))
            return mk("list", tkey(et), *vals, sort="o")
        if len(e["e"]) == 1:
            return self.convert(self.rv(e["e"][0]), t)
        if not e["e"]:
            return self.zero(t)
        return opaque("ilist" + t.s, *[self.rv(x) for x in e["e"]])

    def e_lambda(self, e):
        caps = []
        for c in e["caps"]:
            if c["by"] in ("this", "starthis"):
                caps.append(("this", self.fr.this if self.fr.this is not None else UNSET))
            elif c["by"] == "ref" and not c.get("init"):
                b = self.lookup(c["id"])
                caps.append((c["id"], b if b is not None else UNSET))
            else:
                v = self.rv(c["init"]) if c.get("init") else self.val(self.lookup(c["id"]) or UNSET)
                root = "%s.cap%s@%s" % (self.fr.name, c.get("id"), self.site(e))
                caps.append((c["id"], self.root(root, v)))
        return mk("lam", e["op"], tuple(caps), sort="o")

    def lookup(self, i):
        f = self.fr
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.lenv
        return None

    def e_throw(self, e):
        t = None
        x = e.get("e")
        if x is not None and "t" in x:
            t = TyRef(self.fr.mod, x["t"]).q
        if x is not None:
            d = self.dry
            try:
                n0 = len(self.events)
                if not self.opts.get("throw_args"):
                    pass
                else:
                    self.rv(x)
            except (Dead, Unsupported):
                pass
        self.event("throw", e, type=t)
        raise Dead()

    def e_new(self, e):
        v = self.rv(e["e"]) if e.get("e") else UNSET
        return ptr(self.root("new@" + self.site(e), v))

    def e_delete(self, e):
        self.ev(e["e"])
        return UNSET

    # ------------------------------------------------------------------------------------------ calls
    def e_ctor(self, e):
        fn = e["fn"]
        t = self.T(e)
        q = fn["q"]
        args = e["args"]
        k = t.kind
        if (e.get("cp") or e.get("mv")) and len(args) >= 1:
            v = self.ev(args[0])
            if k == "view":
                return v
            x = self.convert(self.val(v), t)
            if e.get("mv") and v.op == "ref":
                self.moved(v, x)
            return x
        f = self.p.funcs.get(fn["u"])
        if k == "rec" and f is not None and f.get("body") is not None and not f.get("defaulted"):
            return self.construct(f, args, t, e)
        if k == "rec" and self.record(t) is not None and (e.get("df") or not args):
            return self.default(t, "%s@%s" % (self.fr.name, self.site(e))) if not e.get("zi") else self.zero(t)
        r = self.std.ctor(t, fn, args, e)
        if r is not None:
            return r
        r = self.eig.ctor(t, fn, args, e)
        if r is not None:
            return r
        vals = [self.rv(a) for a in args]
        if len(vals) == 1:
            return vals[0] if k != "rec" else mk("obj:" + q, *vals, sort="o")
        return mk("obj:" + q, *[v for v in vals], sort="o")

    def e_ictor(self, e):
        return mk("obj:" + e["fn"]["q"], sort="o")

    def moved(self, r, v):
        """source of a move: containers become empty"""
        def clear(x):
            if x.op == "list" and len(x.args) > 1:
                return lst(x.args[0])
            if x.op == "rec" and x.args[0] not in ("optional", "variant"):
                return mk("rec", x.args[0], x.args[1], *[clear(y) for y in x.args[2:]], sort="o")
            if x.op == "mat" and not is_num(x.args[0]) and not x.op == "opq":
                return x
            return x
        n = clear(v)
        if n is not v:
            self.store(r, n)

    def construct(self, f, args, t, e, argvals=None):
        root = "%s/new:%s@%s" % (self.fr.name, f["q"].rsplit("::", 1)[-1], self.site(e))
        r = self.record(t) or self.p.records.get(f.get("clst"))
        rt = TyRef(f["_m"], f["clst"])
        rr = self.record(rt)
        obj = ref(root)
        fs = self.all_fields(rr) if rr else []
        self.st.mem[root] = rec(rr["q"], [x["n"] for _, x in fs], [UNSET] * len(fs)) if rr else mk("obj:" + f["q"], sort="o")
        avs = argvals if argvals is not None else [self.arg(a, p, f) for a, p in zip(args, f["params"])]
        self.invoke(f, avs, obj, e, ctor=(rt, rr))
        v = self.st.mem[root]
        return v

    def arg(self, a, p, f):
        """argument value for parameter p: reference for reference / view parameters"""
        pt = TyRef(f["_m"], p["t"])
        if pt.isref:
            v = self.ev(a)
            if v.op in ("ref", "lazy") or (v.op == "gite" and _has_ref(v)):
                return v
            if v.op == "lam":
                return v
            v = self.convert(v, pt)
            return self.root("%s.arg:%s@%s" % (self.fr.name, p["n"], self.site(a)), v)
        if pt.kind == "view":
            v = self.ev(a)
            return v
        v = self.ev(a)
        return self.convert(self.val(v), pt)

    def invoke(self, f, avs, this, e, ctor=None, lenv=None, caps=None):
        """analyse the body of f with the given arguments; returns the returned value or reference"""
        q = f["q"]
        if len(self.frames) > 60:
            raise Unsupported("call depth exceeded at " + q)
        self.analysed[f["u"]] = q
        self.callsites.add((self.frames[-1].fn["q"] if self.frames and self.frames[-1].fn else "", q, self.loc(e) if e and self.frames else ""))
        short = q.rsplit("::", 1)[-1]
        name = "%d:%s" % (len(self.frames), short) if not self.ctx_in_names else "%d:%s" % (len(self.frames), short)
        fr = Frame(f, name)
        fr.lenv = lenv
        fr.this = this
        fr.mem0 = dict(self.st.mem)
        fr.pc0 = len(self.st.pc)
        rt = TyRef(f["_m"], f["ret"])
        fr.retref = rt.isref or rt.kind == "view"
        self.frames.append(fr)
        try:
            if caps:
                for i, r in caps:
                    if i == "this":
                        fr.this = r
                    else:
                        fr.env[i] = r
            for p, a in zip(f["params"], avs):
                pt = TyRef(f["_m"], p["t"])
                if a.op == "lazy":
                    fr.env[p["id"]] = a
                elif pt.isref or pt.kind == "view":
                    fr.env[p["id"]] = a if (a.op == "ref" or (a.op == "gite" and _has_ref(a))) else self.root(self.local(p["n"], p["id"]), a)
                else:
                    fr.env[p["id"]] = self.root(self.local(p["n"], p["id"]), self.val(a))
            if ctor:
                self.ctor_inits(f, ctor, this)
            if f.get("body"):
                try:
                    self.ex(f["body"])
                except Dead:
                    self.st = None
            if self.st is not None:
                self.do_return(UNSET)
            v = self.finish_returns(fr, e)
            self.drop_locals(fr, v)
            if self.scal and (v.op == "rec" or v.sort in ("r", "b")):
                v = self.tidy("#ret", v)
            return v
        finally:
            self.frames.pop()

    def drop_locals(self, fr, v):
        pre = fr.name + "."
        keep = set()

        def roots(x, d=0):
            if x.op in ("ref",):
                keep.add(x.args[0])
            if d < 6 and x.op in ("ref", "ptr", "cptr", "gite", "it", "rec", "lam", "uptr", "binsert", "tuple", "guard"):
                for a in x.args:
                    if isinstance(a, Node):
                        roots(a, d + 1)
                    elif isinstance(a, tuple):
                        for b in a:
                            if isinstance(b, tuple):
                                for c in b:
                                    if isinstance(c, Node):
                                        roots(c, d + 1)
        roots(v)
        mem = self.st.mem
        dead = [r for r in mem if r.startswith(pre) and r not in keep]
        for r in dead:
            del mem[r]

    ctx_in_names = False

    def ctor_inits(self, f, ctor, this):
        rt, rr = ctor
        done = set()
        for i in f.get("inits", []):
            if "field" in i:
                ft = None
                for m, x in self.all_fields(rr):
                    if x["n"] == i["field"]:
                        ft = TyRef(m, x["t"])
                v = self.ev(i["e"])
                if ft is not None and ft.isref:
                    pass
                else:
                    v = self.val(v)
                    v = self.convert(v, ft) if ft is not None else v
                if v.op == "unset" and ft is not None:
                    v = self.default(ft, self.fr.name + "." + i["field"])
                self.store(rsub(this, ("f", i["field"])), v)
                done.add(i["field"])
            elif i.get("deleg") or "base" in i:
                v = self.rv(i["e"]) if i.get("e") else UNSET
                if v.op == "rec":
                    cur = self.load(this)
                    for nme, val in zip(v.args[1], v.args[2:]):
                        if nme in cur.args[1]:
                            self.store(rsub(this, ("f", nme)), val)
                            done.add(nme)
        for m, x in (self.all_fields(rr) if rr else []):
            if x["n"] not in done:
                ft = TyRef(m, x["t"])
                if x.get("init"):
                    v = self.in_module(m, lambda: self.convert(self.rv(x["init"]), ft))
                else:
                    v = self.default(ft, self.fr.name + "." + x["n"])
                self.store(rsub(this, ("f", x["n"])), v)

    def do_return(self, v):
        fr = self.fr
        for sc in reversed(fr.scopes):
            self.run_dtors(sc)
        fr.returns.append((self.st.pc, v, self.st.mem))
        self.st = None

    top_returns = ()

    def val_in(self, v, mem):
        if v.op != "ref" and not (v.op == "gite" and _has_ref(v)):
            return v
        st = self.st
        self.st = St(mem, ())
        try:
            return self.load(v)
        finally:
            self.st = st

    def finish_returns(self, fr, e):
        rs = fr.returns
        if len(self.frames) == 2:
            self.top_returns = [(pc, self.val_in(v, mem), mem) for pc, v, mem in rs]
            if self.opts.get("nomerge") and rs:
                self.st = St(dict(rs[-1][2]), rs[0][0][:fr.pc0])
                return rs[-1][1]
        if not rs:
            raise Dead()
        n = fr.pc0
        if len(rs) == 1:
            pc, v, mem = rs[0]
            self.st = St(dict(mem), pc)
            return v
        # gates relative to the function entry, from the last to the first return
        gates = [br_cond(pc[n:]) for pc, _, _ in rs]
        asrt = [and_(*[c for k, c in pc[n:] if k == "as"]) for pc, _, _ in rs]
        pc0 = rs[0][0][:n]
        gates, one_of = self.short_gates(gates)
        val, mem = rs[-1][1], dict(rs[-1][2])
        rest = gates[-1]
        total_as = asrt[-1]
        for i in range(len(rs) - 2, -1, -1):
            g = gates[i]
            # choose the smaller of: g, or the negation of everything later
            alt = not_(rest)
            gg = g if one_of is not None else self.short(g if (g.size <= alt.size or alt.opq) and not (g.opq and not alt.opq) else alt)
            v2, m2 = rs[i][1], rs[i][2]
            val = self.merge_rv(gg, v2, val)
            if m2 is not mem:
                for k in set(m2) | set(mem):
                    a, b = m2.get(k), mem.get(k)
                    if b is None:
                        mem[k] = a
                    elif a is not None and a is not b:
                        mem[k] = self.tidy(k, merge(gg, a, b))
            rest = or_(g, rest)
            if asrt[i] is not total_as:
                total_as = or_(and_(g, asrt[i]), and_(not_(g), total_as)) if not g.opq else or_(asrt[i], total_as)
        pc = pc0
        if one_of is not None:
            rest = one_of
        if rest is not TRUE:
            pc = pc + (("br", rest),) if not self.covers(rest, pc0) else pc
        if total_as is not TRUE:
            pc = pc + (("as", total_as),)
        self.st = St(mem, pc)
        self.after_call(fr)
        return val

    def short_gates(self, gates):
        """abbreviations for mutually exclusive path conditions, and the fact that exactly one of them holds"""
        if not self.scal or len(gates) > 12 or any(g.opq for g in gates) or not any(g.size > 2 * self.scal for g in gates):
            return gates, None
        if len(gates) == 2 and not_(gates[0]) is gates[1]:
            f = self.short(gates[0])
            return [f, not_(f)], TRUE
        fs = [self.short(g) for g in gates]
        return fs, or_(*[and_(f, *[not_(h) for h in fs if h is not f]) for f in fs])

    def short(self, c):
        """abbreviate a large condition"""
        if self.scal and c.size > 2 * self.scal and not c.opq and c.mbv <= 60:
            return name_bool(c)
        return c

    def covers(self, c, pc):
        return False

    def after_call(self, fr):
        """abbreviate large matrix values left behind by the callee"""
        for k, v in list(self.st.mem.items()):
            if v is not fr.mem0.get(k) and not k.startswith(fr.name + "."):
                self.st.mem[k] = self.tidy(k, v, fr.mem0.get(k))

    def tidy(self, name, v, old=None):
        if v is old:
            return v
        if v.op == "rec":
            oa = dict(zip(old.args[1], old.args[2:])) if old is not None and old.op == "rec" else {}
            new = [self.tidy(name + "." + f, x, oa.get(f)) for f, x in zip(v.args[1], v.args[2:])]
            if any(a is not b for a, b in zip(new, v.args[2:])):
                return mk("rec", v.args[0], v.args[1], *new, sort="o")
            return v
        if self.scal and v.sort == "b" and v.op != "lit":
            return self.short(v)
        if self.scal and v.sort == "r" and v.size > self.scal and not v.opq and v.mbv <= 60 and v.op not in ("el", "nscal"):
            if not contains(v, lambda x: x.op == "phi" and isinstance(x.args[0], str) and x.args[0].rsplit("|", 1)[-1] == name):
                return name_scalar(v)
            return v
        if v.op == "mat":
            v = nonempty(v)
        if v.op == "mat" and v.size > NAME_LIMIT:
            R, C, base, ov = v.args

            def nm(b):
                if b.size <= NAME_LIMIT or b.opq or b.mbv > 60:
                    return b
                if contains(b, lambda x: x.op == "phi" and isinstance(x.args[0], str) and x.args[0].rsplit("|", 1)[-1] == name):
                    return b
                return name_body(b)
            return mat(R, C, nm(base), tuple(o[:4] + (nm(o[4]),) for o in ov))
        return v

    def merge_rv(self, c, a, b):
        if a is b:
            return a
        if a.op == "ref" and b.op == "ref":
            return gite(c, a, b)
        return merge(c, self.val(a) if a.op != "ref" else a, b) if a.op != "ref" and b.op != "ref" else gite(c, a, b)

    def e_call(self, e):
        fn = e.get("fn")
        if fn is None:
            return self.call_value(self.rv(e["fe"]), e["args"], e)
        q = fn["q"]
        mdl = self.models.get(q) or self.models.get(_strip(q))
        if mdl is not None:
            r = mdl(self, e)
            if r is not NotImplemented:
                return r
        f = self.p.funcs.get(fn["u"])
        ck = e["ck"]
        if fn.get("lam") and f is not None:
            o = self.rv(e["args"][0])
            return self.call_value(o, e["args"][1:], e)
        if f is not None and (f.get("defaulted") or f.get("body") is None) and fn.get("op") == "=" and not f.get("pure"):
            r = self.lv(e["args"][0])
            v = self.ev(e["args"][1])
            x = self.val(v)
            self.store(r, x)
            if v.op == "ref" and self.moves(fn):
                self.moved(v, x)
            return r
        if f is not None and f.get("body") is not None:
            if ck == "mem":
                this = self.this_ref(e)
                args = e["args"]
            elif ck == "op" and fn.get("cls") and not fn.get("st"):
                this = self.lv(e["args"][0])
                args = e["args"][1:]
            else:
                this = None
                args = e["args"]
            avs = [self.arg(a, p, f) for a, p in zip(args, f["params"])]
            return self.invoke(f, avs, this, e)
        if f is None and fn.get("in") and fn.get("op") == "=" and ck == "op":
            r = self.lv(e["args"][0])
            v = self.ev(e["args"][1])
            x = self.val(v)
            self.store(r, x)
            if v.op == "ref" and self.moves(fn):
                self.moved(v, x)
            return r
        r = self.eig.call(e, fn)
        if r is None:
            r = self.std.call(e, fn)
        if r is not None:
            return r
        return self.unknown_call(e, fn)

    def moves(self, fn):
        ps = fn.get("ps") or []
        return bool(ps) and self.fr.mod.types[ps[0]].get("r") in ("&&", "rr", 2)

    def this_ref(self, e):
        o = self.ev(e["obj"])
        if e.get("ar"):
            return self.deref(self.val(o), e)
        if o.op == "ref" or (o.op == "gite" and _has_ref(o)):
            return o
        return self.root("%s.obj@%s" % (self.fr.name, self.site(e)), o)

    def call_value(self, f, args, e):
        """call of a lambda / function pointer value"""
        if f.op == "lam":
            fn = self.p.funcs.get(f.args[0])
            if fn is None:
                return self.unknown_call(e, {"q": "lambda", "u": ""})
            avs = [self.arg(a, p, fn) for a, p in zip(args, fn["params"])]
            return self.invoke(fn, avs, None, e, caps=f.args[1])
        if f.op == "fnptr":
            fn = self.p.funcs.get(f.args[0])
            if fn is not None and fn.get("body"):
                avs = [self.arg(a, p, fn) for a, p in zip(args, fn["params"])]
                return self.invoke(fn, avs, None, e)
        vals = [self.rv(a) for a in args]
        self.event("callvalue", e, fn=f, args=vals)
        return opaque("callvalue@" + self.site(e), f, *vals)

    def apply(self, f, refs, e):
        """call a lambda value with already evaluated arguments"""
        fn = self.p.funcs.get(f.args[0]) if f.op in ("lam", "fnptr") else None
        if fn is None or not fn.get("body"):
            return opaque("apply", f, *refs)
        return self.invoke(fn, refs, None, e, caps=f.args[1] if f.op == "lam" else None)

    def unknown_call(self, e, fn):
        q = fn.get("q", "?")
        self.note("call of unmodelled function " + q, e)
        vals = []
        refs = []
        srcs = list(e["args"])
        if e["ck"] == "mem" and e.get("obj"):
            srcs = [e["obj"]] + srcs
        for i, a in enumerate(srcs):
            v = self.ev(a)
            if v.op == "ref":
                refs.append((i, v))
            vals.append(self.val(v))
        self.event("unknown", e, name=q, args=vals)
        op_ = opaque("call:%s@%s" % (q, self.site(e)), *vals)
        ps = fn.get("ps") or []
        for i, r in refs:
            nonconst = False
            if e["ck"] == "mem" and e.get("obj"):
                nonconst = (i == 0 and not fn.get("cm")) or (i > 0 and i - 1 < len(ps) and self.nonconst_ref(ps[i - 1]))
            elif e["ck"] == "op" and fn.get("cls"):
                nonconst = (i == 0 and not fn.get("cm")) or (i > 0 and i - 1 < len(ps) and self.nonconst_ref(ps[i - 1]))
            else:
                nonconst = i < len(ps) and self.nonconst_ref(ps[i])
            if nonconst:
                self.store(r, opaque("havoc:%s@%s" % (q, self.site(e)), *vals))
        if fn.get("nr"):
            raise Dead()
        t = TyRef(self.fr.mod, e["t"]) if "t" in e else None
        if t is not None and t.kind == "bool":
            return mk("opq", "bool", op_, sort="b")
        return op_

    def nonconst_ref(self, ti):
        r = self.fr.mod.types[ti]
        return "r" in r and not r.get("c")

    # ------------------------------------------------------------------------------------------ statements
    def ex(self, s):
        if s is None or self.st is None:
            return
        k = s["k"]
        if self.track:
            self.cur_loc = self.loc(s)
            if k in ("ctor", "cast", "paren", "temp", "bind") and "t" in s and self.T(s).q in self.LOCKS:
                self.event("temporary guard", s)
        m = getattr(self, "s_" + k, None)
        try:
            if m is not None:
                m(s)
            else:
                self.ev(s)
        except Dead:
            self.st = None
        except Unsupported as x:
            self.note(str(x), s)
            raise

    def s_blk(self, s):
        fr = self.fr
        fr.scopes.append([])
        self.run_block(s["s"], 0)

    LOOPS = ("for", "rfor", "while", "do")
    split = None        # (exit states of the loop just analysed, length of their common path condition)

    def run_block(self, items, i):
        """statements i.. of the current block; the exits of a loop stay apart until the end of a short block"""
        fr = self.fr
        while i < len(items):
            self.split = None
            x = items[i]
            self.ex(x)
            i += 1
            if self.st is None:
                break
            sp, self.split = self.split, None
            if sp and x["k"] in self.LOOPS and 0 < len(items) - i <= 8 and not any(self.has_loop(y) for y in items[i:]):
                keep = list(fr.scopes[-1])
                ends = []
                for st in sp[0]:
                    self.st = st.copy()
                    fr.scopes[-1] = list(keep)
                    self.run_rest(items, i)
                    if self.st is not None:
                        ends.append(self.st)
                fr.scopes.pop()
                self.st = self.join_states(ends, sp[1]) if ends else None
                return
        self.leave()

    def run_rest(self, items, i):
        self.fr.scopes.append(self.fr.scopes[-1])
        self.run_block(items, i)

    def leave(self):
        sc = self.fr.scopes.pop()
        if self.st is not None and sc:
            self.run_dtors(sc)

    def has_loop(self, s):
        from .query import subnodes
        r = self.loopy.get(id(s))
        if r is None:
            r = self.loopy[id(s)] = (any(isinstance(y, dict) and y.get("k") in self.LOOPS for y in subnodes(s)), s)
        return r[0]
    loopy = {}

    def run_dtors(self, sc):
        for root, dt, f in reversed(sc):
            if callable(dt):
                dt()
            else:
                self.invoke(f, [], ref(root), None)

    def s_decl(self, s):
        for v in s["d"]:
            self.declare(v)

    def declare(self, v):
        t = TyRef(self.fr.mod, v["t"])
        name = self.local(v["n"], v["id"])
        fr = self.fr
        if v.get("static") or v.get("tls"):
            g = "G:%s::%s" % (fr.fn["q"], v["n"])
            self.gtype[g] = t
            if v.get("tls"):
                self.tls.add(g)
            if g not in self.st.mem:
                if t.const and v.get("init"):
                    x = self.convert(self.rv(v["init"]), t)
                    self.st.mem[g] = x if v.get("tls") else once(x)
                else:
                    self.st.mem[g] = self.sym(t, "global", (g,))
            fr.env[v["id"]] = ref(g)
            return
        if v.get("init") is None:
            val = self.default(t, name)
            fr.env[v["id"]] = self.root(name, val)
        elif t.isref or t.kind == "view":
            x = self.ev(v["init"])
            if x.op == "ref" or (x.op == "gite" and _has_ref(x)) or x.op == "lazy":
                fr.env[v["id"]] = x
            else:
                fr.env[v["id"]] = self.root(name, x)
        else:
            val = self.convert(self.rv(v["init"]), t)
            if val.op == "unset":
                val = self.default(t, name)
            fr.env[v["id"]] = self.root(name, val)
        if v.get("bind"):
            b = fr.env[v["id"]]
            for x in v["bind"]:
                if x.get("e"):
                    y = self.ev(x["e"])
                    fr.env[x["id"]] = y if y.op == "ref" else self.root(self.local(x["n"], x["id"]), y)
        self.register_dtor(name, t, v)

    LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")

    def register_dtor(self, root, t, v):
        k = t.kind
        if t.q in self.LOCKS:
            val = self.st.mem.get(root)
            if val is not None and val.op == "guard" and not any("defer" in show(a) for a in val.args):
                self.event("lock", v, mutex=val, shared=t.q == "std::shared_lock")
            self.fr.scopes[-1].append((root, lambda: self.event("unlock", v, mutex=val), None))
        elif k == "rec":
            r = self.record(t)
            if r is not None:
                for m in r.get("methods", []):
                    if m["n"].startswith("~") and not m.get("defaulted"):
                        f = self.p.funcs.get(m["u"])
                        if f is not None and f.get("body"):
                            self.fr.scopes[-1].append((root, None, f))

    def s_if(self, s):
        fr = self.fr
        fr.scopes.append([])
        try:
            if s.get("i"):
                self.ex(s["i"])
            if s.get("v"):
                self.declare(s["v"])
            if self.st is None:
                return
            c = self.simp(self.rb(s["c"]))
            self.branch(c, lambda: self.ex(s["a"]), (lambda: self.ex(s["b"])) if s.get("b") else None, s)
        finally:
            sc = fr.scopes.pop()
            if self.st is not None and sc:
                self.run_dtors(sc)

    def branch(self, c, fa, fb, s=None):
        c = without_idle(c)
        if c is TRUE:
            fa()
            return
        if c is FALSE:
            if fb:
                fb()
            return
        s0 = self.st
        n = len(s0.pc)
        nr = self.exits()
        self.st = St(dict(s0.mem), s0.pc + (("br", c),))
        try:
            fa()
        except Dead:
            self.st = None
        s1 = self.st
        na = self.exits()
        self.st = St(dict(s0.mem), s0.pc + (("br", not_(c)),))
        if fb:
            try:
                fb()
            except Dead:
                self.st = None
        s2 = self.st
        nb = self.exits()
        if s1 is None and s2 is None:
            self.st = None
            raise Dead()
        if s1 is None:
            kind = "br" if na != nr else "as"
            self.st = St(s2.mem, s2.pc[:n] + ((kind, not_(c)),) + s2.pc[n + 1:])
        elif s2 is None:
            kind = "br" if nb != na else "as"
            self.st = St(s1.mem, s1.pc[:n] + ((kind, c),) + s1.pc[n + 1:])
        else:
            self.st = self.join(c, s1, s2, n)

    def exits(self):
        fr = self.fr
        return len(fr.returns) + sum(len(x) for x in fr.breaks) + sum(len(x) for x in fr.conts)

    def s_ret(self, s):
        v = UNSET
        if s.get("e") is not None:
            v = self.ev(s["e"])
            fr = self.fr
            if not fr.retref:
                t = TyRef(fr.mod, fr.fn["ret"]) if "ret" in fr.fn else None
                v = self.val(v)
                if t is not None:
                    v = self.convert(v, t)
        if self.st is None:
            raise Dead()
        self.event("return", s, value=v)
        for sc in reversed(self.fr.scopes):
            self.run_dtors(sc)
        self.do_return(v)
        raise Dead()

    def s_break(self, s):
        self.fr.breaks[-1].append((self.st, len(self.fr.scopes)))
        self.st = None
        raise Dead()

    def s_continue(self, s):
        self.fr.conts[-1].append(self.st)
        self.st = None
        raise Dead()

    def s_null_s(self, s):
        pass

    def s_label(self, s):
        self.ex(s["s"])

    def s_switch(self, s):
        fr = self.fr
        if s.get("i"):
            self.ex(s["i"])
        x = self.rv(s["c"])
        items = s["s"]["s"] if s["s"]["k"] == "blk" else [s["s"]]
        # flatten case labels
        flat = []

        def add_item(it):
            if it["k"] in ("case", "default"):
                flat.append(("label", it.get("v") if it["k"] == "case" else None))
                if it.get("s"):
                    add_item(it["s"])
            else:
                flat.append(("stmt", it))
        for it in items:
            add_item(it)
        labels = []
        for kind, v in flat:
            if kind == "label" and v is not None:
                labels.append(self.equal_vals(x, self.rv(v)))
        other = and_(*[not_(l) for l in labels])
        s0 = self.st
        n = len(s0.pc)
        fr.breaks.append([])
        fr.scopes.append([])
        cur = None
        li = 0
        for kind, v in flat:
            if kind == "label":
                if v is None:
                    c = other
                else:
                    c = labels[li]
                    li += 1
                c = _assume(c, self.facts(s0.pc)) if self.facts(s0.pc) else c
                if c is FALSE:
                    continue
                ns = St(dict(s0.mem), s0.pc + (("br", c),))
                cur = ns if cur is None else self.join_states([(cur), (ns)], n)
                continue
            if cur is None:
                continue
            self.st = cur
            try:
                self.ex(v)
            except Dead:
                self.st = None
            cur = self.st
        fr.scopes.pop()
        outs = [b for b, _ in fr.breaks.pop()]
        if cur is not None:
            outs.append(cur)
        has_default = any(k == "label" and v is None for k, v in flat)
        if not has_default:
            o = _assume(other, self.facts(s0.pc)) if self.facts(s0.pc) else other
            if o is not FALSE:
                outs.append(St(dict(s0.mem), s0.pc + (("br", o),)))
        self.st = self.join_states(outs, n)
        if self.st is None:
            raise Dead()

    def join_states(self, sts, n):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        acc = sts[-1]
        gates, one_of = self.short_gates([br_cond(s.pc[n:]) for s in sts])
        rest = gates[-1]
        ras = and_(*[c for k, c in acc.pc[n:] if k == "as"])
        mem = dict(acc.mem)
        for s, g in reversed(list(zip(sts, gates))[:-1]):
            alt = not_(rest)
            gg = g if one_of is not None else self.short(g if g.size <= alt.size or alt.opq else alt)
            for k in set(s.mem) | set(mem):
                a, b = s.mem.get(k), mem.get(k)
                if b is None:
                    mem[k] = a
                elif a is not None and a is not b:
                    mem[k] = merge(gg, a, b)
            a1 = and_(*[c for k, c in s.pc[n:] if k == "as"])
            if a1 is not ras:
                ras = or_(and_(g, a1), and_(not_(g), ras))
            rest = or_(g, rest)
        pc = acc.pc[:n]
        if one_of is not None:
            rest = one_of
        if rest is not TRUE:
            pc += (("br", rest),)
        if ras is not TRUE:
            pc += (("as", ras),)
        return St(mem, pc)

    def s_try(self, s):
        self.note("try block", s)
        self.ex(s["s"])

    # ------------------------------------------------------------------------------------------ loops
    def s_for(self, s):
        fr = self.fr
        fr.scopes.append([])
        if s.get("i"):
            self.ex(s["i"])
        cond = (lambda: self.rb(s["c"])) if s.get("c") else (lambda: TRUE)
        inc = (lambda: self.ev(s["n"])) if s.get("n") else (lambda: None)
        try:
            self.loop(s, cond, lambda: self.ex(s["s"]), inc)
        finally:
            sc = fr.scopes.pop()
            if sc:
                self.split = None
                if self.st is not None:
                    self.run_dtors(sc)

    def s_while(self, s):
        def cond():
            if s.get("v"):
                self.declare(s["v"])
            return self.rb(s["c"])
        self.loop(s, cond, lambda: self.ex(s["s"]), lambda: None)

    def s_do(self, s):
        self.loop(s, lambda: self.rb(s["c"]), lambda: self.ex(s["s"]), lambda: None, post=True)

    def s_rfor(self, s):
        fr = self.fr
        fr.scopes.append([])
        if s.get("i"):
            self.ex(s["i"])
        c = self.ev(s["r"])
        v = self.val(c)
        if v.op == "strlit" or (v.op == "list" and v.args[0] == "str" and len(v.args) == 2 and v.args[1][0] == "one" and v.args[1][1].op == "strlit"):
            txt = v.args[0] if v.op == "strlit" else v.args[1][1].args[0]
            v = lst("char", *[("one", num(ord(ch))) for ch in txt])
            c = NULL
        if c.op != "ref":
            c = self.root("%s.range@%s" % (fr.name, self.site(s)), v)
        if v.op == "mat":
            size = v.args[0] if v.args[1] is ONE else v.args[1] if v.args[0] is ONE else mul(v.args[0], v.args[1])
            elemref = lambda i: rsub(c, ("el", i, ZERO))
        else:
            size = lsize(v)
            elemref = lambda i: rsub(c, ("i", i))
        idx = self.root("%s.idx@%s" % (fr.name, self.site(s)), ZERO)
        d = s["v"]
        t = TyRef(fr.mod, d["t"])

        def body():
            i = self.load(idx)
            r = elemref(i)
            name = self.local(d["n"], d["id"])
            if t.isref:
                fr.env[d["id"]] = r
            else:
                fr.env[d["id"]] = self.root(name, self.load(r))
            if d.get("bind"):
                for x in d["bind"]:
                    if x.get("e"):
                        y = self.ev(x["e"])
                        fr.env[x["id"]] = y if y.op == "ref" else self.root(self.local(x["n"], x["id"]), y)
            self.ex(s["s"])
        try:
            self.loop(s, lambda: lt(self.load(idx), size), body, lambda: self.store(idx, add(self.load(idx), ONE)))
        finally:
            fr.scopes.pop()

    def loop(self, s, cond, body, inc, post=False):
        from .loops import run_loop
        self.split = None
        self.split = run_loop(self, s, cond, body, inc, post)


def enum_of(n):
    if n.op == "enum":
        return n.args[0]
    if n in ENUM_OF:
        return ENUM_OF[n]
    if n.op == "gite":
        return enum_of(n.args[1]) or enum_of(n.args[2])
    return None


ENUM_OF = {}
VAR_N = {}
_facts_memo = {}
_assume_memo = {}


def _assume(n, f):
    key = (n, tuple(sorted((v.id for v in f.values()))))
    r = _assume_memo.get(key)
    if r is None:
        r = assume_lits(n, f)
        if len(_assume_memo) > 20000:
            _assume_memo.clear()
        _assume_memo[key] = r
    return r


def _has_ref(v):
    if v.op == "ref":
        return True
    if v.op == "gite":
        return _has_ref(v.args[1]) and _has_ref(v.args[2])
    return False


def show_key(n):
    return "%s#%d" % (n.op, n.id) if n.op not in ("fld", "param", "val", "at") else brief(n, 60).replace(" ", "") + "#%d" % n.id


def _strip(q):
    out = []
    d = 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)
