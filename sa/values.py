"""Value constructors on top of terms.py: records, lists, references, optionals, symbolic leaves by type."""
from .terms import *

UNSET = mk("unset", sort="o")
NULL = mk("null", sort="o")


class TyRef:
    __slots__ = ("m", "i", "raw")
    _tab = {}

    def __init__(self, m, i):
        self.m, self.i = m, i
        self.raw = m.types[i] or {"s": "?"}

    @property
    def s(self): return self.raw["s"]

    @property
    def q(self): return self.raw.get("q") or ""

    @property
    def isref(self): return "r" in self.raw

    @property
    def const(self): return bool(self.raw.get("c"))

    def targ(self, k):
        ta = self.raw.get("ta") or []
        if k >= len(ta):
            return None
        a = ta[k]
        if "t" in a:
            return TyRef(self.m, a["t"])
        return a.get("i", a.get("o"))

    def ntargs(self):
        return len(self.raw.get("ta") or [])

    def pointee(self):
        return TyRef(self.m, self.raw["p"]) if "p" in self.raw else None

    @property
    def key(self):
        s = self.s
        for p in ("const ",):
            if s.startswith(p):
                s = s[len(p):]
        return s.rstrip("&").strip()

    @property
    def kind(self):
        r = self.raw
        q = self.q
        if "en" in r:
            return "enum"
        if "p" in r:
            return "ptr"
        if "arr" in r:
            return "array"
        b = r.get("b")
        if b:
            return b
        if q in ("Eigen::Matrix", "Eigen::Array"):
            return "mat"
        if q in ("std::vector", "std::deque", "std::__cxx11::list", "std::array", "std::initializer_list", "std::list", "std::span"):
            return "list"
        if q in ("std::__cxx11::basic_string", "std::basic_string"):
            return "str"
        if q == "std::optional":
            return "opt"
        if q == "std::variant":
            return "var"
        if q == "std::function":
            return "fn"
        if q == "std::unique_ptr" or q == "std::shared_ptr":
            return "uptr"
        if q in VIEWS:
            return "view"
        if q.startswith("Eigen::"):
            return "expr" if q in EXPRS else "eobj"
        if q.startswith("__gnu_cxx::__normal_iterator") or q.startswith("std::_Deque_iterator"):
            return "iter"
        if "rec" in r:
            return "rec"
        return "other"


VIEWS = {"Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose", "Eigen::Diagonal", "Eigen::TriangularView",
         "Eigen::SelfAdjointView", "Eigen::ArrayWrapper", "Eigen::MatrixWrapper", "Eigen::NoAlias", "Eigen::Map",
         "Eigen::Ref", "Eigen::IndexedView", "Eigen::Reshaped", "Eigen::VectorwiseOp"}
EXPRS = {"Eigen::CwiseBinaryOp", "Eigen::CwiseUnaryOp", "Eigen::CwiseNullaryOp", "Eigen::Product", "Eigen::Solve",
         "Eigen::Inverse", "Eigen::CwiseTernaryOp", "Eigen::Select", "Eigen::HouseholderSequence"}

TYPES = {}       # key -> TyRef


def tkey(t):
    k = t.key
    TYPES.setdefault(k, t)
    return k


# ------------------------------------------------------------------------------------------ constructors
def rec(tname, names, vals):
    return mk("rec", tname, tuple(names), *vals, sort="o")


def rget(r, f):
    """field of record value"""
    if r.op == "rec":
        try:
            return r.args[2 + r.args[1].index(f)]
        except ValueError:
            return opaque("nofield:" + f, r)
    if r.op == "gite":
        return merge(r.args[0], rget(r.args[1], f), rget(r.args[2], f))
    if r.op == "unset":
        return UNSET
    if r.op == "tuple" and f in ("first", "second") and len(r.args) == 2:
        return r.args[0 if f == "first" else 1]
    return mk("fld", r, f, sort="o") if r.op != "opq" else opaque("fld:" + f, r)


def rset(r, f, v):
    if r.op == "rec":
        i = 2 + r.args[1].index(f)
        a = list(r.args)
        a[i] = v
        return mk("rec", *a, sort="o")
    if r.op == "gite":
        return merge(r.args[0], rset(r.args[1], f, v), rset(r.args[2], f, v))
    return opaque("rset", r, v)


def opt(has, val):
    return rec("optional", ("has", "val"), (has, val))


NULLOPT = opt(FALSE, UNSET)


def lst(tk, *segs):
    return mk("list", tk, *segs, sort="o")


def sym_list(tk, base):
    return lst(tk, ("sym", base))


FIXED = {}     # sizes of symbolic list parts a rule fixes


def lsize(l):
    if l.op == "gite":
        return ite(l.args[0], lsize(l.args[1]), lsize(l.args[2]))
    if l.op != "list":
        return mk("size", l, sort="i")
    n = ZERO
    for s in l.args[1:]:
        if s[0] == "sym":
            n = add(n, FIXED[s[1]] if s[1] in FIXED else mk("size", s[1], sort="i"))
        elif s[0] == "one":
            n = add(n, ONE)
        elif s[0] == "if":
            n = add(n, mul_ind(s[1], ONE))
        elif s[0] == "gen":
            cnt, v, c = open_gen(s)[1:]
            kv = open_gen(s)[0]
            n = add(n, mk_sum([(kv, cnt)], mul_ind(c, ONE)))
    return n


def gen(k, n, v, cond=TRUE):
    """segment: for k in [0,n): append v(k) if cond(k).  k is closed (renamed to a bound variable)"""
    lv = 1 + max(n.mbv, v.mbv, cond.mbv)
    b = bv(lv)
    return ("gen", lv, n, subst(v, {k: b}), subst(cond, {k: b}))


def open_gen(s):
    _, lv, n, v, c = s
    k = iv(fresh("g"))
    memo = {}
    from .terms import _replace_bv
    return k, n, _replace_bv(v, {bv(lv): k}, memo), _replace_bv(c, {bv(lv): k}, memo)


def lat(l, i, builder):
    """element i of a list; builder(tk, op, args) makes the symbolic element"""
    if l.op == "gite":
        return merge(l.args[0], lat(l.args[1], i, builder), lat(l.args[2], i, builder))
    if l.op != "list":
        return opaque("at", l, i)
    segs = l.args[1:]
    if len(segs) == 1 and segs[0][0] == "sym":
        return builder(l.args[0], "at", (segs[0][1], i))
    # trailing element?
    tot = lsize(l)
    d = sub(tot, i)
    j = len(segs)
    while is_num(d) and d.args[0] >= 1 and j > 0:
        s = segs[j - 1]
        if s[0] == "one":
            if d is ONE:
                return s[1]
            d = sub(d, ONE)
            j -= 1
            continue
        if s[0] == "sym":
            return builder(l.args[0], "at", (s[1], sub(mk("size", s[1], sort="i"), d)))
        if s[0] == "if":
            rest = mk("list", l.args[0], *segs[:j - 1], sort="o")
            n = lsize(rest)
            return merge(s[1], s[2] if d is ONE else lat(rest, sub(n, sub(d, ONE)), builder), lat(rest, sub(n, d), builder))
        break
    # leading
    pos = ZERO
    for s in segs:
        off = sub(i, pos)
        if s[0] == "one":
            if off is ZERO:
                return s[1]
            pos = add(pos, ONE)
            continue
        if s[0] == "gen":
            k, n, v, c = open_gen(s)
            if c is TRUE:
                if len(segs) == 1 or (ge0(off) and ge0(sub(sub(n, ONE), off))):
                    return subst(v, {k: off})
                pos = add(pos, n)
                continue
            break
        break
    if all(s[0] == "one" for s in segs) and len(segs) <= 8 and segs:
        r = segs[-1][1]
        for j in range(len(segs) - 2, -1, -1):
            r = merge(eqn(i, num(j)), segs[j][1], r)
        return r
    return opaque("at", l, i)


def norm_list(l):
    """drop absent elements, mark certain ones"""
    if not any(s[0] == "if" and s[1] in (TRUE, FALSE) for s in l.args[1:]):
        return l
    return mk("list", l.args[0], *[("one", s[2]) if s[0] == "if" and s[1] is TRUE else s for s in l.args[1:] if not (s[0] == "if" and s[1] is FALSE)], sort="o")


def lpush(l, v, cond=TRUE):
    if l.op == "gite":
        return gite(l.args[0], lpush(l.args[1], v, cond), lpush(l.args[2], v, cond))
    if l.op != "list":
        return opaque("push", l, v)
    return mk("list", *l.args, ("one", v) if cond is TRUE else ("if", cond, v), sort="o")


def lcat(l, other):
    if l.op == "list" and other.op == "list":
        segs = list(other.args[1:])
        a = list(l.args)
        return mk("list", *(a + segs), sort="o")
    return opaque("cat", l, other)


def ref(root, path=()):
    return mk("ref", root, path, sort="o")


def rsub(r, *steps):
    return mk("ref", r.args[0], r.args[1] + tuple(steps), sort="o")


def ptr(r):
    return mk("ptr", r, sort="o")


def cptr(r, cond):
    """pointer that is non-null exactly when cond holds"""
    if cond is TRUE:
        return ptr(r)
    if cond is FALSE:
        return NULL
    return mk("cptr", r, cond, sort="o")


def string(s):
    return lst("str", ("one", mk("strlit", s, sort="o"))) if s else lst("str")


def enumv(q, v):
    return mk("enum", q, v, sort="e")


def is_scalar(n):
    return n.sort in ("r", "i")


def is_bool(n):
    return n.sort == "b"


def merge(c, a, b):
    """value-level if-then-else"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.op == "unset":
        return b
    if b.op == "unset":
        return a
    if a.op == "rec" and b.op == "rec" and a.args[:2] == b.args[:2]:
        return mk("rec", a.args[0], a.args[1], *[merge(c, x, y) for x, y in zip(a.args[2:], b.args[2:])], sort="o")
    if a.op == "mat" and b.op == "mat":
        if a.args[0] is b.args[0] and a.args[1] is b.args[1]:
            if a.args[2].sort == "b" or b.args[2].sort == "b":
                return m_ewise(lambda x, y: gite(c, x, y), a, b)
            return m_ewise(lambda x, y: ite(c, x, y), a, b)
        return gite(c, a, b)
    if a.op == "list" and b.op == "list" and a.args[0] == b.args[0]:
        sa, sb = a.args[1:], b.args[1:]
        n = 0
        while n < len(sa) and n < len(sb) and sa[n] == sb[n]:
            n += 1
        ra, rb = sa[n:], sb[n:]
        if all(s[0] in ("one", "if") for s in ra + rb):
            nc = not_(c)

            def part(s):
                return (TRUE, s[1]) if s[0] == "one" else (s[1], s[2])
            if len(ra) <= 1 and len(rb) <= 1:
                # at most one more element on either branch
                (ca, va), (cb, vb) = part(ra[0]) if ra else (FALSE, None), part(rb[0]) if rb else (FALSE, None)
                v = va if vb is None else vb if va is None else merge(c, va, vb)
                out = [("if", gite(c, ca, cb), v)]
            else:
                out = [("if", and_(g, part(s)[0]), part(s)[1]) for g, x in ((c, ra), (nc, rb)) for s in x]
            return norm_list(mk("list", a.args[0], *(sa[:n] + tuple(out)), sort="o"))
        return gite(c, a, b)
    if a.sort == "b" or b.sort == "b":
        return gite(c, a, b)
    if is_scalar(a) and is_scalar(b):
        return ite(c, a, b)
    # pointers: null against pointer
    if a.op in ("ptr", "cptr") and b.op == "null":
        return cptr(a.args[0], and_(c, TRUE if a.op == "ptr" else a.args[1]))
    if b.op in ("ptr", "cptr") and a.op == "null":
        return cptr(b.args[0], and_(not_(c), TRUE if b.op == "ptr" else b.args[1]))
    return gite(c, a, b)


def assume_conj(n, facts):
    return assume_lits(n, facts) if facts else n
