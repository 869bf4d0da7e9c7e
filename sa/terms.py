"""Hash-consed value graph with normalising constructors.

Scalars are rational polynomials over atoms (real arithmetic; rounding is not modelled), booleans are
and/or trees over normalised range literals, matrices are element functions over two index variables
with rectangular region overrides, sums over index ranges are kept in a canonical bound-variable form.
Two expressions that denote the same real-valued function of the same inputs by (multi)linear algebra,
re-ordering, re-association, loop/array re-writing or case splitting get the same node (or are
identified by `equal`, which expands gates case by case)."""
from fractions import Fraction
from itertools import permutations
import os, sys
sys.setrecursionlimit(20000)

F0, F1 = Fraction(0), Fraction(1)
SALT = int(os.environ.get("SA_SALT", "0"))     # varies iteration orders, to test that no verdict depends on them


class Node:
    __slots__ = ("op", "args", "id", "sort", "opq", "ivs", "mbv", "_lits", "size")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):         # iteration orders do not depend on addresses
        return self.id ^ SALT


_tab = {}
_kids_memo = {}


def _iter_nodes(x):
    if isinstance(x, Node):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _iter_nodes(y)


EMPTY = frozenset()


def mk(op, *args, sort=None):
    key = (op, args)
    n = _tab.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.args, n.id = op, args, len(_tab)
    n._lits = None
    kids = list(_iter_nodes(args))
    n.opq = op == "opq" or any(k.opq for k in kids)
    iv = set()
    mbv = args[0] if op == "bv" else 0
    size = 1
    for k in kids:
        iv |= k.ivs
        if k.mbv > mbv:
            mbv = k.mbv
        size += k.size
    if op == "iv":
        iv.add(n)
    if op in ("mat",):
        rc = {m for m in iv if m.op == "iv" and m.args[0] in ("#r", "#c")}
        rows = set()
        for k in _iter_nodes((args[0], args[1])):
            rows |= k.ivs
        iv -= (rc - rows)
    if op in ("lamr",):     # one-row closure over #old / #i style indices: binder over given iv names
        iv -= {m for m in iv if m.op == "iv" and m.args[0] in ("#r", "#c", "#old")}
    n.ivs = frozenset(iv) if iv else EMPTY
    n.mbv = mbv
    n.size = min(size, 10 ** 9)
    n.sort = sort if sort is not None else _default_sort(op, args)
    _tab[key] = n
    return n


_INT_OPS = {"iv", "bv", "rows", "cols", "size", "dim", "rank", "prefix"}


def _default_sort(op, args):
    if op in _INT_OPS:
        return "i"
    if op in ("and", "or", "lit", "true", "false"):
        return "b"
    if op in ("ind",):
        return "i"
    if op == "num":
        return "i" if args[0].denominator == 1 else "r"
    if op == "poly":
        for mono, c in args:
            if c.denominator != 1:
                return "r"
            for a, e in mono:
                if a.sort != "i" or e < 0:
                    return "r"
        return "i"
    if op in ("max",):
        return "i" if all(a.sort == "i" for a in args[0]) else "r"
    if op == "sum":
        return args[1].sort
    return "r"


_fresh = [0]


def fresh(prefix="t"):
    _fresh[0] += 1
    return "%s#%d" % (prefix, _fresh[0])


def iv(name):
    return mk("iv", name, sort="i")


ROW, COL, OLD = iv("#r"), iv("#c"), iv("#old")
TRUE, FALSE = mk("true"), mk("false")


def num(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, float):
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


ZERO, ONE = num(0), num(1)
NAN = mk("nan")
INF = mk("inf")


def opaque(tag, *deps):
    return mk("opq", tag, *[d for d in deps if isinstance(d, Node)])


# ---------------------------------------------------------------------------------------- polynomials
def is_num(n):
    return n.op == "num"


def terms(n):
    """dict mono -> coeff"""
    if n.op == "num":
        return {(): n.args[0]} if n.args[0] else {}
    if n.op == "poly":
        return dict(n.args)
    return {((n, 1),): F1}


def from_terms(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda t: tuple((a.id, e) for a, e in t[0]))
    return mk("poly", *items)


def add(*xs):
    d = {}
    for x in xs:
        x = num(x)
        if x.op == "num":
            if x.args[0]:
                d[()] = d.get((), F0) + x.args[0]
        elif x.op == "poly":
            for m, c in x.args:
                d[m] = d.get(m, F0) + c
        else:
            m = ((x, 1),)
            d[m] = d.get(m, F0) + 1
    return from_terms(d)


def scale(x, k):
    x = num(x)
    k = Fraction(k)
    if k == 1:
        return x
    if k == 0:
        return ZERO
    return from_terms({m: c * k for m, c in terms(x).items()})


def neg(x):
    return scale(x, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """returns list of (mono, coeff) or None when it has to be treated as general product"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))


def _norm_mono(m):
    """normalise indicator factors of a monomial; returns Node (poly) equal to the product"""
    inds = [(a, e) for a, e in m if a.op == "ind"]
    polys = [(a, e) for a, e in m if a.op == "poly" and e > 0]
    if not inds and not polys:
        return None
    if polys:
        r = from_terms({tuple(t for t in m if not (t[0].op == "poly" and t[1] > 0)): F1})
        for a, e in polys:
            r = mul(r, powi(a, e))
        return r
    rest = [(a, e) for a, e in m if a.op != "ind"]
    c = and_(*[a.args[0] for a, e in inds])
    if c is TRUE:
        return from_terms({tuple(rest): F1}) if rest else ONE
    if c is FALSE:
        return ZERO
    # equality elimination in the other factors
    sub_ = {}
    for l in conjuncts(c):
        s = solved_eq(l)
        if s and s[0] not in sub_:
            sub_[s[0]] = s[1]
            if any(a.ivs and s[0] in a.ivs for a, e in rest):
                nr = ONE
                for a, e in rest:
                    nr = mul(nr, powi(subst(a, {s[0]: s[1]}), e))
                return mul_ind(c, nr)
    if len(inds) == 1 and inds[0][1] == 1 and inds[0][0].args[0] is c:
        return None
    a = mk("ind", c)
    return from_terms({tuple(sorted(rest + [(a, 1)], key=lambda t: t[0].id)): F1})


def mul_ind(c, p):
    """ind(c) * p with p arbitrary"""
    if c is TRUE:
        return p
    if c is FALSE:
        return ZERO
    return mul(mk("ind", c), p)


def _raw_mul(a, b):
    ta, tb = terms(a), terms(b)
    d = {}
    extra = []
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = _mono_mul(m1, m2)
            nm = _norm_mono(m) if (m1 and m2) else None
            if nm is None:
                d[m] = d.get(m, F0) + c1 * c2
            else:
                extra.append(scale(nm, c1 * c2))
    r = from_terms(d)
    return add(r, *extra) if extra else r


def mul(a, b):
    a, b = num(a), num(b)
    if a.op == "num":
        return scale(b, a.args[0])
    if b.op == "num":
        return scale(a, b.args[0])
    # cancellation of a whole polynomial against a reciprocal factor
    for p, q in ((a, b), (b, a)):
        if p.op == "poly":
            qt = terms(q)
            prim, k = _primitive(p)
            if prim is not None and any((x is prim and e < 0) for m in qt for x, e in m):
                d = ZERO
                for m, c in qt.items():
                    hit = [e for x, e in m if x is prim and e < 0]
                    if hit:
                        m2 = []
                        for x, e in m:
                            if x is prim:
                                e += 1
                            if e:
                                m2.append((x, e))
                        d = add(d, scale(from_terms({tuple(m2): F1}), c * k))
                    else:
                        d = add(d, _raw_mul(from_terms({m: c}), p))
                return d
    return _raw_mul(a, b)


def mulall(*xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def powi(a, e):
    if e == 0:
        return ONE
    if e < 0:
        return inv(powi(a, -e))
    if a.op not in ("num", "poly", "ind"):
        return from_terms({((a, e),): F1})
    r = ONE
    for _ in range(e):
        r = mul(r, a)
    return r


def _primitive(p):
    """p = k * prim with prim a canonical multiple (leading coeff 1); only for >=2-term polys"""
    if p.op != "poly" or len(p.args) < 2:
        return None, F1
    k = p.args[0][1]
    return (p if k == 1 else scale(p, 1 / k)), k


def inv(a):
    a = num(a)
    if a.op == "num":
        if a.args[0] == 0:
            return mk("opq", "div0")
        return num(1 / a.args[0])
    t = terms(a)
    if len(t) == 1:
        (m, c), = t.items()
        return from_terms({tuple((x, -e) for x, e in m): 1 / c})
    prim, k = _primitive(a)
    return from_terms({((prim, -1),): 1 / k})


def div(a, b):
    return mul(a, inv(b))


def is_const(n):
    return n.op == "num"


def cval(n):
    return n.args[0] if n.op == "num" else None


# -------------------------------------------------------------------------------------------- ranges
# known lower/upper bounds of atoms (assumptions installed by the analysis: container sizes, indices)
_bounds = {}


def set_bounds(atom, lo=None, hi=None):
    """hi: exclusive linear upper bound node (for indices)"""
    o = _bounds.get(atom)
    if o is not None and o[0] == lo and o[1] is hi:
        return
    _bounds[atom] = (lo, hi)
    _bump(atom)


_ver = {}
_gver = [0]


def _bump(atom):
    if atom.op == "iv":
        _ver[atom] = _ver.get(atom, 0) + 1
    else:
        _gver[0] += 1


def _vkey(p):
    if p.ivs:
        return (_gver[0],) + tuple(sorted((v.id, _ver[v]) for v in p.ivs if v in _ver))
    return _gver[0]


_pat_bounds = []


def add_pattern_bound(f):
    """f(atom) -> (lo, hi exclusive node or None) or None"""
    _pat_bounds.append(f)
    _gver[0] += 1


def drop_bounds(atom):
    if _bounds.pop(atom, None) is not None:
        _bump(atom)


def clear_bounds():
    _bounds.clear()
    del _pat_bounds[:]
    _gver[0] += 1


def bound_of(a):
    b = _bounds.get(a)
    if b is None:
        for f in _pat_bounds:
            b = f(a)
            if b is not None:
                return b
    return b


def atom_range(a):
    b = bound_of(a)
    if b is not None:
        lo = b[0]
        return (None if lo is None else Fraction(lo), None)
    if a.op in ("rows", "cols", "size", "dim", "iv", "bv", "rank", "sqrt", "norm"):
        if a.op == "iv" and a.args[0] == "#old":
            return (None, None)
        return (F0, None)
    if a.op == "ind":
        return (F0, F1)
    if a.op == "max":
        los = [prange(x)[0] for x in a.args[0]]
        los = [l for l in los if l is not None]
        lo = max(los) if los else None
        if len(a.args[0]) == 2:
            x, y = a.args[0]
            if add(x, y) is ZERO:
                lo = max(lo, F0) if lo is not None else F0
        return (lo, None)
    if a.op == "sum":
        r = prange(a.args[1])
        return (F0, None) if r[0] is not None and r[0] >= 0 else (None, None)
    if a.op == "maxfold":
        return (None, None)
    return (None, None)


def prange(p):
    p = num(p)
    if p.op == "num":
        return (p.args[0], p.args[0])
    lo, hi = F0, F0
    for m, c in terms(p).items():
        mlo, mhi = F1, F1
        for a, e in m:
            alo, ahi = atom_range(a)
            if e % 2 == 0 and e > 0:
                nlo, nhi = F0, None
                if alo is not None and alo >= 0:
                    nlo = alo ** e
            elif e < 0:
                nlo, nhi = ((F0, None) if (alo is not None and alo >= 0) or e % 2 == 0 else (None, None))
            else:
                nlo, nhi = (alo ** e if alo is not None and alo >= 0 else alo), (ahi ** e if ahi is not None and alo is not None and alo >= 0 else (ahi if e == 1 else None))
                if e > 1 and (alo is None or alo < 0):
                    nlo, nhi = None, None
            if mlo is not None and mlo >= 0 and nlo is not None and nlo >= 0:
                mlo = mlo * nlo
                mhi = mhi * nhi if (mhi is not None and nhi is not None) else None
            else:
                if len(m) == 1 and e == 1:
                    mlo, mhi = nlo, nhi
                else:
                    mlo, mhi = None, None
        if c > 0:
            tlo = mlo * c if mlo is not None else None
            thi = mhi * c if mhi is not None else None
        else:
            tlo = mhi * c if mhi is not None else None
            thi = mlo * c if mlo is not None else None
        lo = lo + tlo if (lo is not None and tlo is not None) else None
        hi = hi + thi if (hi is not None and thi is not None) else None
    return (lo, hi)


_ge0_memo = {}


def ge0(p):
    """provably p >= 0 from the installed bounds (linear upper bounds are substituted)"""
    p = num(p)
    if p.op == "num":
        return p.args[0] >= 0
    k = (p, _vkey(p))
    r = _ge0_memo.get(k)
    if r is None:
        r = _ge0_memo[k] = _ge0(p)
    return r


def _ge0(p):
    r = prange(p)
    if r[0] is not None and r[0] >= 0:
        return True
    # use symbolic upper bounds: for negative coefficient on atom a with a <= hi-1, replace a by hi-1
    d = terms(p)
    for m, c in d.items():
        if c < 0 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            b = bound_of(a)
            if b is not None and b[1] is not None:
                q = add(from_terms({k: v for k, v in d.items() if k != m}), scale(sub(b[1], ONE), c))
                if q is not p and ge0(q):
                    return True
    return False


def le(a, b):
    return ge0(sub(b, a))


# ------------------------------------------------------------------------------------------ interval sets
# an interval: (lo, loclosed, hi, hiclosed) with None for infinity
FULL = ((None, False, None, False),)


def _norm_iv(ivs, integer):
    out = []
    for lo, lc, hi, hc in ivs:
        if integer:
            if lo is not None:
                l = -((-lo).__floor__()) if lo.denominator != 1 else int(lo)
                if lo.denominator == 1 and not lc:
                    l = int(lo) + 1
                lo, lc = Fraction(l), True
            if hi is not None:
                h = hi.__floor__()
                if hi.denominator == 1 and not hc:
                    h = int(hi) - 1
                hi, hc = Fraction(h), True
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and not (lc and hc)):
                continue
        out.append((lo, lc, hi, hc))
    out.sort(key=lambda t: (t[0] is not None, t[0] if t[0] is not None else F0, not t[1]))
    res = []
    for t in out:
        if res:
            plo, plc, phi, phc = res[-1]
            lo, lc, hi, hc = t
            touch = phi is None or lo is None or lo < phi or (lo == phi and (lc or phc)) or \
                (integer and phi is not None and lo is not None and lo <= phi + 1)
            if touch:
                if phi is None or hi is None:
                    nh, nc = None, False
                elif hi > phi:
                    nh, nc = hi, hc
                elif hi == phi:
                    nh, nc = hi, hc or phc
                else:
                    nh, nc = phi, phc
                res[-1] = (plo, plc, nh, nc)
                continue
        res.append(t)
    return tuple(res)


def iv_inter(a, b, integer=False):
    out = []
    for l1, lc1, h1, hc1 in a:
        for l2, lc2, h2, hc2 in b:
            if l1 is None:
                lo, lc = l2, lc2
            elif l2 is None:
                lo, lc = l1, lc1
            elif l1 > l2:
                lo, lc = l1, lc1
            elif l2 > l1:
                lo, lc = l2, lc2
            else:
                lo, lc = l1, lc1 and lc2
            if h1 is None:
                hi, hc = h2, hc2
            elif h2 is None:
                hi, hc = h1, hc1
            elif h1 < h2:
                hi, hc = h1, hc1
            elif h2 < h1:
                hi, hc = h2, hc2
            else:
                hi, hc = h1, hc1 and hc2
            out.append((lo, lc, hi, hc))
    return _norm_iv(out, integer)


def iv_compl(a, integer=False):
    out = []
    cur, cc = None, False
    first = True
    for lo, lc, hi, hc in a:
        if first:
            if lo is not None:
                out.append((None, False, lo, not lc))
        else:
            out.append((cur, cc, lo, not lc))
        first = False
        cur, cc = hi, not hc
        if hi is None:
            return _norm_iv(out, integer)
    if first:
        return FULL
    out.append((cur, cc, None, False))
    return _norm_iv(out, integer)


def iv_union(a, b, integer=False):
    return _norm_iv(list(a) + list(b), integer)


def iv_range(q):
    lo, hi = prange(q)
    return _norm_iv([(lo, lo is not None, hi, hi is not None)], q.sort == "i")


# ---------------------------------------------------------------------------------------------- booleans
# literal: mk("lit", X, kind, S): kind "n" -> S interval tuple; kind "f" -> (S frozenset sorted tuple, domain tuple)
def lit_num(q, S):
    integer = q.sort == "i"
    R = iv_range(q)
    S = iv_inter(S, R, integer)
    if not S:
        return FALSE
    if S == R:
        return TRUE
    return mk("lit", q, "n", S, sort="b")


def lit_fin(x, vals, dom):
    vals = tuple(sorted(set(vals) & set(dom)))
    dom = tuple(sorted(set(dom)))
    if not vals:
        return FALSE
    if vals == dom:
        return TRUE
    return mk("lit", x, "f", (vals, dom), sort="b")


def bsym(x):
    """boolean atom"""
    return lit_fin(x, (1,), (0, 1))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "lit":
        x, k, S = c.args
        if k == "n":
            return lit_num(x, iv_compl(S, x.sort == "i"))
        vals, dom = S
        return lit_fin(x, [v for v in dom if v not in vals], dom)
    if c.op == "and":
        return or_(*[not_(x) for x in c.args])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args])
    if c.op == "opq":
        return mk("opq", "not", c, sort="b")
    if c.op == "forall":
        return bool_atom_not(c)
    return mk("opq", "not", c, sort="b")


def bool_atom_not(c):
    return mk("opq", "not", c, sort="b")


def conjuncts(c):
    if c.op == "and":
        return c.args
    if c is TRUE:
        return ()
    return (c,)


def disjuncts(c):
    if c.op == "or":
        return c.args
    if c is FALSE:
        return ()
    return (c,)


def _lit_merge(a, b, union):
    x, k, S1 = a.args
    _, _, S2 = b.args
    if k == "n":
        integer = x.sort == "i"
        return lit_num(x, iv_union(S1, S2, integer) if union else iv_inter(S1, S2, integer))
    v1, d1 = S1
    v2, d2 = S2
    dom = tuple(sorted(set(d1) | set(d2)))
    vs = set(v1) | set(v2) if union else set(v1) & set(v2)
    return lit_fin(x, vs, dom)


def _assoc(cs, op):
    union = op == "or"
    unit, zero = (FALSE, TRUE) if union else (TRUE, FALSE)
    lits, rest = {}, []
    seen = set()
    work = []
    for c in cs:
        work.extend(c.args if c.op == op else (c,))
    for c in work:
        if c is unit:
            continue
        if c is zero:
            return zero
        if c.op == "lit":
            k = (c.args[0], c.args[1])
            if k in lits:
                m = _lit_merge(lits[k], c, union)
                if m is zero:
                    return zero
                if m is unit:
                    del lits[k]
                    continue
                lits[k] = m
            else:
                lits[k] = c
        elif c not in seen:
            seen.add(c)
            rest.append(c)
    # drop (or shrink) compound members implied/contradicted by literals
    out = list(lits.values())
    if rest and out:
        nrest = []
        changed = False
        for r in rest:
            r2 = restrict(r, lits, not union)
            if r2 is not r:
                changed = True
            nrest.append(r2)
        if changed:
            return _assoc(out + nrest, op)
    dual = "and" if union else "or"
    # absorption among compound members
    if len(rest) > 1:
        sets = [(r, frozenset(r.args) if r.op == dual else frozenset((r,))) for r in rest]
        keep = []
        for i, (r, s) in enumerate(sets):
            if any(j != i and (t < s) for j, (_, t) in enumerate(sets)):
                continue
            keep.append(r)
        rest = keep
    out += rest
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk(op, *out, sort="b")


def restrict(c, lits, conj):
    """simplify compound c given literals: conj -> they hold; otherwise -> they do not hold"""
    if c.op == "lit":
        k = (c.args[0], c.args[1])
        l = lits.get(k)
        if l is None:
            return c
        if not conj:
            l = not_(l)
            if l is FALSE or l is TRUE:
                return c
        if l.op != "lit":
            return c
        m = _lit_merge(l, c, False)
        if m is FALSE:
            return FALSE
        if m is l:
            return TRUE
        return c
    if c.op in ("and", "or"):
        ch = [restrict(x, lits, conj) for x in c.args]
        if all(a is b for a, b in zip(ch, c.args)):
            return c
        return and_(*ch) if c.op == "and" else or_(*ch)
    return c


def and_(*cs):
    return _assoc(cs, "and")


def or_(*cs):
    return _assoc(cs, "or")


def _pull_max(q):
    """find a max atom occurring linearly (alone in its monomial, coefficient any)"""
    for m, c in terms(q).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "max":
            return m[0][0], c, m
    return None


def _find_ind(q):
    for m, c in terms(q).items():
        for a, e in m:
            if a.op == "ind":
                return a.args[0]
    return None


_cmp_memo = {}


def cmp0(p, op):
    """p op 0, op in < <= > >= == !="""
    p = num(p)
    k = (p, op, _vkey(p))
    r = _cmp_memo.get(k)
    if r is None:
        r = _cmp0(p, op)
        _cmp_memo[k] = r
    return r


def _cmp0(p, op):
    if p.op == "num":
        v = p.args[0]
        return TRUE if {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op] else FALSE
    if op == "!=":
        return not_(cmp0(p, "=="))
    c = _find_ind(p)
    if c is not None and not any(True for m, k in terms(p).items() for a, e in m if a.op == "nan"):
        t = assume_bool(p, c, True)
        f = assume_bool(p, c, False)
        for x in (t, f):
            if any(a.op == "ind" and a.args[0] is c for m, k in terms(x).items() for a, e in m):
                t = rewrite(t, lambda y: ONE if y.op == "ind" and y.args[0] is c else None)
                f = rewrite(f, lambda y: ZERO if y.op == "ind" and y.args[0] is c else None)
                break
        return or_(and_(c, cmp0(t, op)), and_(not_(c), cmp0(f, op)))
    mx = _pull_max(p)
    if mx is not None and op != "==":
        a, co, m = mx
        rest = from_terms({k: v for k, v in terms(p).items() if k != m})
        parts = [cmp0(add(rest, scale(x, co)), op) for x in a.args[0]]
        # max(x..) > t  <=> any ; max < t <=> all   (co > 0)
        anyq = (op in (">", ">=")) == (co > 0)
        return or_(*parts) if anyq else and_(*parts)
    if mx is not None and p.sort == "i":
        a, co, m = mx
        rest = from_terms({k: v for k, v in terms(p).items() if k != m})
        args = list(a.args[0])
        for x in args:
            if add(rest, scale(x, co)) is ZERO:     # x == max(x, ..)
                return and_(*[cmp0(sub(x, y), ">=") for y in args if y is not x])
        if ROW in rest.ivs or COL in rest.ivs:      # a matrix position
            return or_(*[and_(cmp0(add(rest, scale(x, co)), "=="), *[cmp0(sub(x, y), ">" if j < k else ">=") for j, y in enumerate(args) if j != k])
                         for k, x in enumerate(args)])
    t = dict(terms(p))
    const = t.pop((), F0)
    items = sorted(t.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0]))
    q0 = from_terms(dict(items))
    integer = q0.sort == "i"
    lead = items[0][1]
    if integer:
        from math import gcd
        g = 0
        for _, c in items:
            g = gcd(g, int(c))
        k = Fraction(g) if lead > 0 else Fraction(-g)
    else:
        k = lead
    q = scale(q0, 1 / k)
    b = -const / k          # p op 0  <=>  k*(q - b) op 0
    if k < 0:
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op]
    S = {"<": (None, False, b, False), "<=": (None, False, b, True), ">": (b, False, None, False),
         ">=": (b, True, None, False), "==": (b, True, b, True)}[op]
    S = _norm_iv([S], q.sort == "i")
    if not S:
        return FALSE
    # a provable bound of the whole linear form decides it
    if q.sort == "i" or True:
        if op in (">", ">=") and ge0(sub(q, num(b + 1 if (op == ">" and q.sort == "i") else b))) and (op == ">=" or q.sort == "i"):
            return TRUE
        if op in ("<", "<=") and ge0(sub(num(b - 1 if (op == "<" and q.sort == "i") else b), q)) and (op == "<=" or q.sort == "i"):
            return TRUE
        if op in (">", ">=") and q.sort == "i" and ge0(sub(num(b if op == ">" else b - 1), q)):
            return FALSE
        if op in ("<", "<=") and q.sort == "i" and ge0(sub(q, num(b if op == "<" else b + 1))):
            return FALSE
        if op == "==" and q.sort == "i" and (ge0(sub(q, num(b + 1))) or ge0(sub(num(b - 1), q))):
            return FALSE
    return lit_num(q, S)


def cmp(a, op, b):
    return cmp0(sub(a, b), op)


def lt(a, b): return cmp(a, "<", b)
def leq(a, b): return cmp(a, "<=", b)
def gt(a, b): return cmp(a, ">", b)
def geq(a, b): return cmp(a, ">=", b)
def eqn(a, b): return cmp(a, "==", b)


_PRI = {"#c": 0, "#r": 1}


def _elim_rank(x):
    if x.args[0] in _PRI:
        return (0, _PRI[x.args[0]])
    return (1, -x.id)


def solved_eq(l):
    """literal  q == k  that can be solved for an index variable: returns (iv, expr)"""
    if l.op != "lit" or l.args[1] != "n":
        return None
    q, _, S = l.args
    if len(S) != 1 or S[0][0] is None or S[0][0] != S[0][2]:
        return None
    k = S[0][0]
    best = None
    for m, c in terms(q).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "iv" and abs(c) == 1:
            x = m[0][0]
            if x.args[0] == "#old":
                continue
            rest = from_terms({mm: cc for mm, cc in terms(q).items() if mm != m})
            if x in rest.ivs:
                continue
            e = scale(sub(num(k), rest), 1 / c)
            if best is None or _elim_rank(x) < _elim_rank(best[0]):
                best = (x, e)
    return best


# ------------------------------------------------------------------------------------------------ ite/max
def ite(c, a, b):
    """scalar if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if not c.opq and a.size + b.size < 400:
        if c is gt(a, b) or c is geq(a, b):
            return max_(a, b)
        if c is lt(a, b) or c is leq(a, b):
            return min_(a, b)
        if c.op == "and":
            for l in c.args:
                if l is lt(a, b) or l is leq(a, b):
                    return ite(and_(*[x for x in c.args if x is not l]), min_(a, b), b)
                if l is gt(a, b) or l is geq(a, b):
                    return ite(and_(*[x for x in c.args if x is not l]), max_(a, b), b)
    return add(mul_ind(c, a), mul_ind(not_(c), b)) if False else add(b, mul_ind(c, sub(a, b)))


def max_(*xs):
    s = {}
    cmax = None
    work = [num(x) for x in xs]
    flat = []
    while work:
        x = work.pop()
        if x.op == "max":
            work.extend(x.args[0])
        else:
            flat.append(x)
    for x in flat:
        if x.op == "num":
            cmax = x.args[0] if cmax is None else max(cmax, x.args[0])
        else:
            s[x] = True
    if cmax is not None:
        keep = []
        for x in s:
            r = prange(x)
            if r[1] is not None and r[1] <= cmax:
                continue
            keep.append(x)
        if any((prange(x)[0] is not None and prange(x)[0] >= cmax) for x in keep):
            cmax = None
        s = {x: True for x in keep}
    items = list(s)
    if cmax is not None:
        items.append(num(cmax))
    if len(items) == 1:
        return items[0]
    # positive content
    lead = None
    nz = [x for x in items if x is not ZERO]
    from math import gcd
    g = None
    for x in nz:
        for m, c in terms(x).items():
            c = abs(c)
            if g is None:
                g = c
            else:
                n = gcd(g.numerator * c.denominator, c.numerator * g.denominator)
                g = Fraction(n, g.denominator * c.denominator)
    if g is not None and g != 1:
        items = [scale(x, 1 / g) for x in items]
    else:
        g = F1
    items.sort(key=lambda n: n.id)
    return scale(mk("max", tuple(items)), g)


def min_(*xs):
    return neg(max_(*[neg(num(x)) for x in xs]))


def abs_(x):
    return max_(x, neg(x))


def sqrt_(x):
    x = num(x)
    if x.op == "num":
        v = x.args[0]
        from math import isqrt
        if v >= 0 and isqrt(v.numerator) ** 2 == v.numerator and isqrt(v.denominator) ** 2 == v.denominator:
            return num(Fraction(isqrt(v.numerator), isqrt(v.denominator)))
    # sqrt(max(p, 0)) with p >= 0
    return mk("sqrt", x)


def fun(name, *args, sort="r"):
    return mk("fn:" + name, *args, sort=sort)


# ------------------------------------------------------------------------------------------ substitution
def children_rebuild(n, f):
    """rebuild node n with children mapped through f (normalising constructors)"""
    op, a = n.op, n.args
    if op in ("num", "iv", "bv", "true", "false", "nan", "inf"):
        return n
    if op == "poly":
        ch = False
        new = {}
        for m, c in a:
            for x, e in m:
                if x not in new:
                    y = f(x)
                    new[x] = y
                    if y is not x:
                        ch = True
        if not ch:
            return n
        out = []
        d = {}
        for m, c in a:
            if all(new[x] is x for x, e in m):
                d[m] = c
                continue
            r = num(c)
            for x, e in m:
                r = mul(r, powi(new[x], e))
            out.append(r)
        return add(from_terms(d), *out)
    if op == "ind":
        c = f(a[0])
        if c is a[0]:
            return n
        return ONE if c is TRUE else ZERO if c is FALSE else mk("ind", c)
    if op == "and":
        return and_(*[f(x) for x in a])
    if op == "or":
        return or_(*[f(x) for x in a])
    if op == "lit":
        x, k, S = a
        y = f(x)
        if y is x:
            return n
        if k == "n":
            return lit_num_subst(y, S)
        return fin_eq(y, S[0], S[1])
    if op == "max":
        return max_(*[f(x) for x in a[0]])
    if op == "sum":
        vs, body = open_sum(n)
        vs2 = [(v, f(d)) for v, d in vs]
        b2 = f(body)
        if b2 is body and all(x[1] is y[1] for x, y in zip(vs, vs2)):
            return n
        return mk_sum(vs2, b2)
    if op == "el":
        return elem(f(a[0]), f(a[1]), f(a[2]))
    if op == "mat":
        return mat_map(n, f)
    if op == "sqrt":
        return sqrt_(f(a[0]))
    if op == "gite":
        return gite(f(a[0]), f(a[1]), f(a[2]))
    if op == "forall":
        v, dom, b = open_forall(n)
        return mk_forall(v, f(dom), f(b))
    if op == "maxfold":
        return maxfold_map(n, f)

    def go(x):
        if isinstance(x, Node):
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    na = go(a)
    if na == a:
        return n
    if op == "list":
        na = (na[0],) + tuple(("one", s[2]) if s[0] == "if" and s[1] is TRUE else s for s in na[1:] if not (s[0] == "if" and s[1] is FALSE))
    return mk(op, *na, sort=n.sort)


def lit_num_subst(p, S):
    """p in S for an arbitrary (un-normalised) polynomial p"""
    if p.op == "opq":
        return mk("opq", "cmp", p, sort="b")
    out = []
    for lo, lc, hi, hc in S:
        cs = []
        if lo is not None and lo == hi:
            cs.append(cmp(p, "==", num(lo)))
        else:
            if lo is not None:
                cs.append(cmp(p, ">=" if lc else ">", num(lo)))
            if hi is not None:
                cs.append(cmp(p, "<=" if hc else "<", num(hi)))
        out.append(and_(*cs))
    return or_(*out)


def fin_eq(x, vals, dom):
    """x in vals for finite-domain value x"""
    if x.op == "gite":
        return or_(and_(x.args[0], fin_eq(x.args[1], vals, dom)), and_(not_(x.args[0]), fin_eq(x.args[2], vals, dom)))
    if x.op == "enum":
        return TRUE if x.args[1] in vals else FALSE
    if x.op == "num":
        return TRUE if x.args[0] in vals else FALSE
    if x.op in ("true", "false", "and", "or", "lit") or x.sort == "b":
        r = FALSE
        if 1 in vals:
            r = or_(r, x)
        if 0 in vals:
            r = or_(r, not_(x))
        return r
    return lit_fin(x, vals, dom)


def gite(c, a, b):
    """generic (non scalar) if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "b" and b.sort == "b":
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "gite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "gite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("gite", c, a, b, sort=a.sort)


_subst_memo = {}


def subst(n, m):
    """substitute index variables"""
    if not n.ivs:
        return n
    m = {k: v for k, v in m.items() if k in n.ivs and k is not v}
    if not m:
        return n
    key = (n, tuple(sorted(((k.id, v.id) for k, v in m.items()))))
    r = _subst_memo.get(key)
    if r is None:
        r = _subst(n, m)
        _subst_memo[key] = r
    return r


def _subst(n, m):
    if n.op == "iv":
        return m.get(n, n)
    return children_rebuild(n, lambda x: subst(x, m))


_map_cache = {}


def rewrite(n, f, memo=None):
    """bottom-up rewrite: f(node) -> node or None (None: rebuild from rewritten children)"""
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    r = f(n)
    if r is None:
        r = children_rebuild(n, lambda x: rewrite(x, f, memo))
    memo[n] = r
    return r


def replace(n, mp):
    return rewrite(n, lambda x: mp.get(x))


def contains(n, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    memo[n] = False
    r = pred(n) or any(contains(k, pred, memo) for k in _iter_nodes(n.args))
    memo[n] = r
    return r


def atoms_of(n, pred, memo=None, out=None):
    if out is None:
        out, memo = set(), set()
    if n in memo:
        return out
    memo.add(n)
    if pred(n):
        out.add(n)
    for k in _iter_nodes(n.args):
        atoms_of(k, pred, memo, out)
    return out


# ------------------------------------------------------------------------------------------------- sums
def bv(k):
    return mk("bv", k, sort="i")


def _replace_bv(n, mp, memo):
    """replace free bound-variables by level (used to open binders). Levels are globally unique inside a
    binder's body because a binder always uses levels above everything nested in it."""
    if n.mbv == 0:
        return n
    r = memo.get(n)
    if r is not None:
        return r
    if n.op == "bv":
        r = mp.get(n, n)
    elif n.op in ("sum", "forall", "maxfold", "fold", "stack") and n.mbv < min(k.args[0] for k in mp):
        r = n
    else:
        r = children_rebuild(n, lambda x: _replace_bv(x, mp, memo))
    memo[n] = r
    return r


_open_memo = {}


def open_sum(n):
    r = _open_memo.get(n)
    if r is None:
        doms, body, lv = n.args
        vs, mp = [], {}
        for j, d in enumerate(doms):
            v = iv(fresh("s"))
            vs.append(v)
            mp[bv(lv + j)] = v
        memo = {}
        out = []
        for v, d in zip(vs, doms):
            out.append((v, _replace_bv(d, mp, memo)))
        r = (out, _replace_bv(body, mp, memo))
        _open_memo[n] = r
    return r


def _close(vs, exprs):
    """rename ivs (in order) to bvs above everything nested; returns (level, exprs)"""
    lv = 1 + max([e.mbv for e in exprs] + [0])
    mp = {v: bv(lv + j) for j, v in enumerate(vs)}
    return lv, [subst(e, mp) for e in exprs]


def mk_sum(vs, body):
    """sum over vs = [(iv, size), ...] (sizes may depend on earlier ones) of body (scalar)"""
    body = num(body)
    if body is ZERO:
        return ZERO
    vs = [(v, num(d)) for v, d in vs]
    out = []
    for m, c in terms(body).items():
        out.append(scale(_sum_mono(list(vs), m), c))
    return add(*out)


def _sum_mono(vs, m):
    vset = {v for v, _ in vs}
    # variables reachable through domains
    # split indicator conjuncts
    outer, inner, conds, ocond = [], [], [], []
    for a, e in m:
        if a.op == "ind":
            for l in conjuncts(a.args[0]):
                (conds if l.ivs & vset else ocond).append(l)
        elif a.ivs & vset:
            inner.append((a, e))
        else:
            outer.append((a, e))
    for v, d in vs:
        if d is ZERO:
            return ZERO
    if outer or ocond:
        o = mul_ind(and_(*ocond), from_terms({tuple(outer): F1}) if outer else ONE)
        i = tuple(sorted(inner + ([(mk("ind", and_(*conds)), 1)] if conds else []), key=lambda t: t[0].id))
        return mul(o, _sum_mono(vs, i))
    # equality elimination of a summation variable
    for l in conds:
        if l.op == "lit" and l.args[1] == "n":
            q, _, S = l.args
            if len(S) == 1 and S[0][0] is not None and S[0][0] == S[0][2]:
                for v, d in reversed(vs):
                    co = terms(q).get(((v, 1),))
                    if co is not None and abs(co) == 1:
                        rest = from_terms({mm: cc for mm, cc in terms(q).items() if mm != ((v, 1),)})
                        if v in rest.ivs:
                            continue
                        e = scale(sub(num(S[0][0]), rest), 1 / co)
                        # e may only depend on variables whose own domain does not depend on v
                        if any(v in dd.ivs for _, dd in vs):
                            continue
                        if ge0(sub(e, d)) or ge0(sub(num(-1), e)):
                            return ZERO
                        b = ONE
                        for a, ex in inner:
                            b = mul(b, powi(subst(a, {v: e}), ex))
                        b = mul_ind(subst(and_(*conds), {v: e}), b)
                        # variables that e mentions must be bound outside of v's position: keep order
                        rem = [(w, dd) for w, dd in vs if w is not v]
                        if d.ivs & {w for w, _ in rem} or not _in_range(e, d):
                            b = mul_ind(and_(geq(e, ZERO), lt(e, d)), b) if d.ivs & {w for w, _ in rem} else b
                        return mk_sum(rem, b) if rem else b
    # merge nested sums that depend on our variables
    for a, e in inner:
        if a.op == "sum" and e >= 1:
            nvs = list(vs)
            b = from_terms({tuple((x, ex) for x, ex in inner if x is not a): F1}) if len(inner) > 1 else ONE
            b = mul_ind(and_(*conds), b)
            for _ in range(e):
                doms, bod = _open_fresh(a)
                nvs += doms
                b = mul(b, bod)
            return mk_sum(nvs, b)
    # drop variables that nothing depends on
    used = set()
    for a, e in inner:
        used |= a.ivs
    for l in conds:
        used |= l.ivs
    for k in range(len(vs) - 1, -1, -1):
        v, d = vs[k]
        if v not in used and not any(v in dd.ivs for _, dd in vs[k + 1:]):
            rem = vs[:k] + vs[k + 1:]
            b = from_terms({tuple(sorted(inner, key=lambda t: t[0].id)): F1}) if inner else ONE
            b = mul_ind(and_(*conds), b)
            b = mul(b, d)
            return mk_sum(rem, b) if rem else b
    # upper bounds on a summation variable against its own domain: triangular domains
    for k, (v, d) in enumerate(vs):
        for w, dw in vs[:k]:
            t = terms(d)
            if t.get(((w, 1),)) == 1 and len(t) <= 2 and set(t) <= {((w, 1),), ()}:
                off = t.get((), F0)
                if off <= 1:
                    nvs = list(vs)
                    nvs[k] = (v, dw)
                    b = from_terms({tuple(sorted(inner, key=lambda t: t[0].id)): F1}) if inner else ONE
                    b = mul_ind(and_(*conds, lt(v, d)), b)
                    return mk_sum(nvs, b)
    # canonical order / names
    b = from_terms({tuple(sorted(inner, key=lambda t: t[0].id)): F1}) if inner else ONE
    if conds:
        b = mul_ind(and_(*conds), b)
    best = None
    n = len(vs)
    perms = permutations(range(n)) if n <= 3 else _orders(vs, b)
    for p in perms:
        order = [vs[i] for i in p]
        ok = True
        seen = set()
        for v, d in order:
            if (d.ivs & vset) - seen:
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        lv, ex = _close([v for v, _ in order], [b] + [d for _, d in order])
        node = mk("sum", tuple(ex[1:]), ex[0], lv)
        if best is None or node.id < best.id:
            best = node
    return best


def _colour(k):
    return iv("colour%d" % k)


def _orders(vs, b, cap=5040):
    """orders of the summation variables up to symmetry: colour refinement, then every order inside a colour class"""
    n = len(vs)
    mark = iv("colour*")
    col = [0] * n
    for _ in range(n):
        sig = []
        for k, (v, d) in enumerate(vs):
            mp = {w: (mark if w is v else _colour(col[j])) for j, (w, _) in enumerate(vs)}
            # several variables of one colour are merged: enough to separate most positions
            sig.append((col[k], subst(d, mp).id, subst(b, mp).id))
        ks = sorted(set(sig))
        new = [ks.index(x) for x in sig]
        if new == col:
            break
        col = new
    classes = {}
    for k in range(n):
        classes.setdefault(col[k], []).append(k)
    groups = [classes[c] for c in sorted(classes)]
    tot = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            tot *= k
    if tot > cap:
        groups = [[x] for g in groups for x in g]

    def rec(gs):
        if not gs:
            yield ()
            return
        for p in permutations(gs[0]):
            for r in rec(gs[1:]):
                yield p + r
    out = list(rec(groups))
    # orders that violate a dependent domain are dropped by the caller; keep the original as a fallback
    vset = {v for v, _ in vs}
    if any(d.ivs & vset for _, d in vs):
        out = list(permutations(range(n))) if n <= 4 else out + [tuple(range(n))]
    return out


def _open_fresh(n):
    vs, body = open_sum(n)
    mp = {v: iv(fresh("s")) for v, _ in vs}
    return [(mp[v], subst(d, mp)) for v, d in vs], subst(body, mp)


def _in_range(e, d):
    return True


def mk_forall(v, dom, b):
    if b is TRUE or dom is ZERO:
        return TRUE
    if b.op == "and":
        return and_(*[mk_forall(v, dom, x) for x in b.args])
    if v not in b.ivs:
        return or_(b, cmp(dom, "<=", ZERO))
    lv, (d, bb) = _close([v], [dom, b])
    return bsym(mk("forall", d, bb, lv, sort="b"))


def open_forall(n):
    d, b, lv = n.args
    v = iv(fresh("q"))
    return v, d, _replace_bv(b, {bv(lv): v}, {})


def maxfold(init, v, dom, cond, val):
    """max(init, max over v<dom with cond of val); init may be None"""
    if dom is ZERO or cond is FALSE:
        return init if init is not None else mk("opq", "empty-max")
    if init is not None and init.op == "maxfold" and init.args[0] is not None:
        pass
    lv, (d, c, x) = _close([v], [dom, cond, val])
    core = mk("maxfold", d, c, x, lv)
    return core if init is None else max_(init, core)


def replace_bv(n, lv, v):
    """open the bound variable of level lv"""
    return _replace_bv(n, {bv(lv): v}, {})


def maxfold_map(n, f):
    d, c, x, lv = n.args
    v = iv(fresh("q"))
    mp = {bv(lv): v}
    memo = {}
    return maxfold(None, v, f(d), f(_replace_bv(c, mp, memo)), f(_replace_bv(x, mp, memo)))


# --------------------------------------------------------------------------------------------- matrices
# mat(rows, cols, base, overrides)   base: scalar node over ROW, COL
# overrides: tuple of (r0, c0, nr, nc, body) with body in coordinates local to the region
def mat(rows, cols, base, ov=()):
    rows, cols = num(rows), num(cols)
    ov = tuple(sorted(ov, key=lambda t: tuple(x.id for x in t)))
    for (r0, c0, nr, nc, b) in ov:
        if r0 is ZERO and c0 is ZERO and nr is rows and nc is cols:
            return mk("mat", rows, cols, b, (), sort="o")
    return mk("mat", rows, cols, base, ov, sort="o")


def mat_map(n, f):
    r, c, b, ov = n.args
    return mat(f(r), f(c), _inner(b, f), tuple((f(a), f(b2), f(nr), f(nc), _inner(x, f)) for a, b2, nr, nc, x in ov))


def _inner(b, f):
    # ROW/COL are bound inside a matrix body: a substitution of ROW/COL from outside must not touch them.
    # Substitutions of free ROW/COL never reach here because mat nodes do not list them in ivs.
    keep = f(ROW) is not ROW or f(COL) is not COL
    if not keep:
        return f(b)
    r2, c2 = iv(fresh("mr")), iv(fresh("mc"))
    t = subst(b, {ROW: r2, COL: c2})
    t = f(t)
    return subst(t, {r2: ROW, c2: COL})


def is_mat(n):
    return n.op == "mat"


def m_rows(m):
    if m.op == "gite":
        return ite(m.args[0], m_rows(m.args[1]), m_rows(m.args[2]))
    return m.args[0] if m.op == "mat" else opaque("rows", m)


def m_cols(m):
    if m.op == "gite":
        return ite(m.args[0], m_cols(m.args[1]), m_cols(m.args[2]))
    return m.args[1] if m.op == "mat" else opaque("cols", m)


def sym_mat(name, rows=None, cols=None, sort="r"):
    """symbolic matrix whose elements are atoms"""
    rows = rows if rows is not None else mk("rows", name)
    cols = cols if cols is not None else mk("cols", name)
    return mat(rows, cols, elem(name, ROW, COL if cols is not ONE else ZERO))


def elem(name, i, j):
    """element of a symbolic matrix name"""
    if name.op == "symm":       # symmetric view atom
        if j.id < i.id:
            i, j = j, i
    return mk("el", name, i, j, sort="r")


def _shift(b, r0, c0):
    mp = {}
    if r0 is not ZERO:
        mp[ROW] = add(ROW, r0)
    if c0 is not ZERO:
        mp[COL] = add(COL, c0)
    return subst(b, mp) if mp else b


def same_region(a, b):
    return all(x is y for x, y in zip(a[:4], b[:4]))


def region_rel(a, b):
    """relation of region a to region b: 'eq' 'in' (a inside b) 'out' (b inside a) 'dis' or None"""
    if all(x is y for x, y in zip(a[:4], b[:4])):
        return "eq"
    ar, ac, anr, anc = a[:4]
    br, bc, bnr, bnc = b[:4]
    if le(add(ar, anr), br) or le(add(br, bnr), ar) or le(add(ac, anc), bc) or le(add(bc, bnc), ac):
        return "dis"
    if anr is ZERO or anc is ZERO or bnr is ZERO or bnc is ZERO:
        return "dis"
    if le(br, ar) and le(add(ar, anr), add(br, bnr)) and le(bc, ac) and le(add(ac, anc), add(bc, bnc)):
        return "in"
    if le(ar, br) and le(add(br, bnr), add(ar, anr)) and le(ac, bc) and le(add(bc, bnc), add(ac, anc)):
        return "out"
    return None


def m_read(m, r0, c0, nr, nc):
    """sub-matrix"""
    if m.op != "mat":
        return opaque("read", m)
    R, C, base, ov = m.args
    reg = (num(r0), num(c0), num(nr), num(nc))
    if reg[0] is ZERO and reg[1] is ZERO and reg[2] is R and reg[3] is C:
        return m
    out = []
    for o in ov:
        rel = region_rel(reg, o)
        if rel in ("eq", "in"):
            return mat(reg[2], reg[3], _shift(o[4], sub(reg[0], o[0]), sub(reg[1], o[1])))
        if rel == "dis":
            continue
        if rel == "out":
            out.append((sub(o[0], reg[0]), sub(o[1], reg[1]), o[2], o[3], o[4]))
            continue
        # partial overlap: fall back to an element-wise case distinction
        return mat(reg[2], reg[3], _shift(m_body(m), reg[0], reg[1]))
    return mat(reg[2], reg[3], _shift(base, reg[0], reg[1]), out)


def m_write(m, r0, c0, nr, nc, val):
    """m with region replaced by matrix val"""
    R, C, base, ov = m.args
    reg = (num(r0), num(c0), num(nr), num(nc))
    if reg[2] is ZERO or reg[3] is ZERO:
        return m
    if reg[0] is ZERO and reg[1] is ZERO and reg[2] is R and reg[3] is C:
        return mat(R, C, val.args[2], val.args[3])
    new = []
    for o in ov:
        rel = region_rel(reg, o)
        if rel in ("eq", "out"):
            continue
        if rel == "dis":
            new.append(o)
            continue
        if rel == "in":
            inner = m_write(mat(o[2], o[3], o[4]), sub(reg[0], o[0]), sub(reg[1], o[1]), reg[2], reg[3], val)
            if not inner.args[3]:
                new.append((o[0], o[1], o[2], o[3], inner.args[2]))
                return mat(R, C, base, new + [x for x in ov if x is not o and x not in new])
            new.append((o[0], o[1], o[2], o[3], m_body(inner)))
            return mat(R, C, base, new + [x for x in ov if x is not o and x not in new])
        # overlap: give up precision, element-wise piecewise body
        body = m_body(m)
        inreg = and_(geq(ROW, reg[0]), lt(ROW, add(reg[0], reg[2])), geq(COL, reg[1]), lt(COL, add(reg[1], reg[3])))
        vb = _shift(m_body(val), neg(reg[0]), neg(reg[1]))
        return mat(R, C, ite(inreg, vb, body))
    if val.args[3]:
        for (a, b, x, y, bod) in val.args[3]:
            new.append((add(a, reg[0]), add(b, reg[1]), x, y, bod))
        # remaining part of the region keeps val's base: only exact if overrides tile val; otherwise piecewise
        if not _tiles(val):
            new = [o for o in new if region_rel(o, reg) not in ("in", "eq")]
            new.append(reg + (m_body(val),))
    else:
        new.append(reg + (val.args[2],))
    return mat(R, C, base, new)


def _tiles(m):
    """do the overrides cover the whole (vector) range?"""
    R, C, base, ov = m.args
    if not ov:
        return False
    segs = vec_segments(m)
    return segs is not None and all(s[2] is not None for s in segs)


def vec_segments(m):
    """for column/row partitions: list of (offset, length, body or None for base) covering [0, rows) in order,
    None if the order cannot be established"""
    R, C, base, ov = m.args
    for o in ov:
        if o[1] is not ZERO or o[3] is not C:
            return None
    todo = list(ov)
    pos = ZERO
    out = []
    while todo:
        nxt = [o for o in todo if o[0] is pos]
        if nxt:
            o = nxt[0]
            todo.remove(o)
            out.append((o[0], o[2], o[4]))
            pos = add(pos, o[2])
            continue
        # gap: next override whose offset is >= pos and <= all others
        c = [o for o in todo if le(pos, o[0]) and all(le(o[0], p[0]) for p in todo)]
        if not c:
            return None
        o = c[0]
        out.append((pos, sub(o[0], pos), None))
        pos = o[0]
    if pos is not R:
        if not le(pos, R):
            return None
        out.append((pos, sub(R, pos), None))
    return out


def m_body(m):
    """single body over ROW/COL (piecewise if there are overrides)"""
    R, C, base, ov = m.args
    b = base
    for (r0, c0, nr, nc, body) in ov:
        conds = []
        if r0 is not ZERO:
            conds.append(geq(ROW, r0))
        if add(r0, nr) is not R:
            conds.append(lt(ROW, add(r0, nr)))
        if c0 is not ZERO:
            conds.append(geq(COL, c0))
        if add(c0, nc) is not C:
            conds.append(lt(COL, add(c0, nc)))
        b = ite(and_(*conds), _shift(body, neg(r0), neg(c0)), b)
    return b


def index_max(i):
    """(gate, value if it holds, value otherwise) of an index that contains the larger of two values"""
    mx = _pull_max(i) if i.sort == "i" else None
    if mx is None or len(mx[0].args[0]) != 2:
        return None
    a, co, m = mx
    rest = from_terms({k: v for k, v in terms(i).items() if k != m})
    u, v = a.args[0]
    c1, c2 = cmp0(sub(u, v), ">="), not_(cmp0(sub(u, v), ">"))
    if c1.op != "lit" or c2.op != "lit":
        return None
    u, v = add(rest, scale(u, co)), add(rest, scale(v, co))
    return (c1, u, v) if c1.id < c2.id else (c2, v, u)


def m_at(m, i, j=ZERO):
    """element (i, j)"""
    i, j = num(i), num(j)
    if m.op == "mat":
        s = index_max(i) or index_max(j)
        if s:
            c = s[0]
            other = lambda x: (x, x) if (y := index_max(x)) is None or y[0] is not c else y[1:]
            (i1, i2), (j1, j2) = other(i), other(j)
            return ite(c, m_at(m, i1, j1), m_at(m, i2, j2))
    if m.op == "gite":
        return ite(m.args[0], m_at(m.args[1], i, j), m_at(m.args[2], i, j))
    if m.op != "mat":
        return opaque("at", m, i, j)
    R, C, base, ov = m.args
    if ov:
        reg = (i, j, ONE, ONE)
        hit = True
        for o in ov:
            rel = region_rel(reg, o)
            if rel in ("eq", "in"):
                return subst(o[4], {ROW: sub(i, o[0]), COL: sub(j, o[1])})
            if rel != "dis":
                hit = False
        if hit:
            return subst(base, {ROW: i, COL: j})
        return subst(m_body(m), {ROW: i, COL: j})
    return subst(base, {ROW: i, COL: j})


def m_setat(m, i, j, v):
    i, j = num(i), num(j)
    s = index_max(i) or index_max(j)
    if s:
        c = s[0]
        other = lambda x: (x, x) if (y := index_max(x)) is None or y[0] is not c else y[1:]
        (i1, i2), (j1, j2) = other(i), other(j)
        a, b = m_setat(m, i1, j1, assume_bool(v, c, True)), m_setat(m, i2, j2, assume_bool(v, c, False))
        return mat(m.args[0], m.args[1], ite(c, m_body(a), m_body(b)))
    R, C, base, ov = m.args
    reg = (i, j, ONE, ONE)
    for o in ov:
        rel = region_rel(reg, o)
        if rel in ("eq", "in"):
            inner = m_setat(mat(o[2], o[3], o[4]), sub(i, o[0]), sub(j, o[1]), v)
            return mat(R, C, base, [x for x in ov if x is not o] + [o[:4] + (inner.args[2],)])
        if rel != "dis":
            m = mat(R, C, m_body(m))
            base = m.args[2]
            ov = ()
            break
    conds = []
    if R is not ONE:
        conds.append(eqn(ROW, i))
    if C is not ONE:
        conds.append(eqn(COL, j))
    return mat(R, C, ite(and_(*conds), v, base), ov)


def m_ewise(f, *ms):
    """element-wise combination; aligns overrides"""
    ms = list(ms)
    if any(m.op != "mat" for m in ms):
        return opaque("ewise", *ms)
    R, C = ms[0].args[0], ms[0].args[1]
    regs = []
    for m in ms:
        for o in m.args[3]:
            if not any(same_region(o, r) for r in regs):
                regs.append(o[:4])
    if not regs:
        return mat(R, C, f(*[m.args[2] for m in ms]))
    ok = all(region_rel(a, b) == "dis" for i, a in enumerate(regs) for b in regs[i + 1:])
    if not ok:
        return mat(R, C, f(*[m_body(m) for m in ms]))
    ov = []
    for r in regs:
        parts = [m_read(m, *r) for m in ms]
        if any(p.args[3] for p in parts):
            return mat(R, C, f(*[m_body(m) for m in ms]))
        ov.append(r + (f(*[p.args[2] for p in parts]),))
    return mat(R, C, f(*[m.args[2] for m in ms]), ov)


def m_transpose(m):
    if m.op != "mat":
        return opaque("transpose", m)
    R, C, base, ov = m.args
    sw = {ROW: COL, COL: ROW}
    return mat(C, R, subst(base, sw), tuple((c0, r0, nc, nr, subst(b, sw)) for r0, c0, nr, nc, b in ov))


def _simple(m):
    return not m.args[3]


def m_mul(a, b):
    """matrix product"""
    if a.op != "mat" or b.op != "mat":
        return opaque("mul", a, b)
    k = iv(fresh("k"))
    inner = a.args[1]
    # split the inner dimension along the segments of b (rows) or a (cols)
    segs = None
    if not _simple(b):
        segs = vec_segments(b)
        if segs is None:
            b = mat(b.args[0], b.args[1], m_body(b))
    if not _simple(a):
        sa = vec_segments(m_transpose(a))
        if sa is None:
            # split rows of a instead: result gets row segments
            ra = vec_segments(a)
            if ra is not None:
                out = mat(a.args[0], b.args[1], ZERO)
                for off, ln, body in ra:
                    part = m_mul(mat(ln, a.args[1], body if body is not None else _shift(a.args[2], off, ZERO)), b)
                    out = m_write(out, off, ZERO, ln, b.args[1], part)
                return out
            a = mat(a.args[0], a.args[1], m_body(a))
        elif segs is None:
            segs = [(o, l, None) for o, l, _ in sa]
    if segs is not None:
        tot = None
        for off, ln, _ in segs:
            pa = m_read(a, ZERO, off, a.args[0], ln)
            pb = m_read(b, off, ZERO, ln, b.args[1])
            if not _simple(pa):
                pa = mat(pa.args[0], pa.args[1], m_body(pa))
            if not _simple(pb):
                pb = mat(pb.args[0], pb.args[1], m_body(pb))
            r = m_mul(pa, pb)
            tot = r if tot is None else m_ewise(add, tot, r)
        return tot
    body = mk_sum([(k, inner)], mul(subst(a.args[2], {COL: k}), subst(b.args[2], {ROW: k})))
    return mat(a.args[0], b.args[1], body)


def m_sum(m, g=lambda x: x):
    """sum over all elements of g(element)"""
    if m.op != "mat":
        return opaque("sum", m)
    R, C, base, ov = m.args
    segs = vec_segments(m) if ov else None
    if ov and segs is None:
        m = mat(R, C, m_body(m))
        R, C, base, ov = m.args
    if segs:
        return add(*[m_sum(m_read(m, o, ZERO, l, C), g) if b is None else m_sum(mat(l, C, b), g) for o, l, b in segs])
    vs = []
    mp = {}
    if R is not ONE:
        v = iv(fresh("s"))
        vs.append((v, R))
        mp[ROW] = v
    else:
        mp[ROW] = ZERO
    if C is not ONE:
        v = iv(fresh("s"))
        vs.append((v, C))
        mp[COL] = v
    else:
        mp[COL] = ZERO
    b = subst(g(base), mp)
    return mk_sum(vs, b) if vs else b


def m_max(m, g=lambda x: x):
    if m.op != "mat":
        return opaque("max", m)
    R, C, base, ov = m.args
    if ov:
        base = m_body(m)
    if C is not ONE and R is not ONE:
        return opaque("max2d", m)
    v = iv(fresh("s"))
    b = subst(base, {ROW: v, COL: ZERO} if C is ONE else {COL: v, ROW: ZERO})
    return maxfold(None, v, R if C is ONE else C, TRUE, g(b))


def m_forall(m, g):
    R, C, base, ov = m.args
    base = m_body(m)
    v = iv(fresh("s"))
    if C is ONE:
        return mk_forall(v, R, subst(g(base), {ROW: v, COL: ZERO}))
    w = iv(fresh("s"))
    return mk_forall(v, R, mk_forall(w, C, subst(g(base), {ROW: v, COL: w})))


def m_lower_assumed(m):
    """the matrix as read by a solver that only reads the lower triangle (row >= col)"""
    R, C, base, ov = m.args
    ge = geq(ROW, COL)

    def fix(body, r0, c0):
        r, c = add(ROW, r0), add(COL, c0)

        def desym(n):       # below the diagonal the symmetric view is the matrix itself
            if n.op == "el" and n.args[0].op == "symm" and {n.args[1], n.args[2]} == {r, c}:
                return mk("el", n.args[0].args[0], r, c, sort="r")
            return None
        return rewrite(assume_bool(body, geq(r, c), True), desym)
    nov = []
    for (r0, c0, nr, nc, b) in ov:
        # region entirely in the strictly upper triangle: never read
        if ge0(sub(c0, add(r0, nr))):
            nov.append((r0, c0, nr, nc, ZERO))
            continue
        nov.append((r0, c0, nr, nc, fix(b, r0, c0)))
    return mat(R, C, fix(base, ZERO, ZERO), nov)


def m_symm_lower(m):
    """self-adjoint view of the lower triangle: element function"""
    R, C, base, ov = m.args
    b = m_body(m)
    lo = assume_bool(b, geq(ROW, COL), True)
    sw = subst(lo, {ROW: COL, COL: ROW})
    if lo is sw:
        return mat(R, C, lo)
    # a symmetric atom for plain elements
    def f(n):
        if n.op == "el" and n.args[1] is ROW and n.args[2] is COL:
            return elem(mk("symm", n.args[0], "L", sort="o"), ROW, COL)
        return None
    lo2 = rewrite(lo, f)
    if subst(lo2, {ROW: COL, COL: ROW}) is lo2:
        return mat(R, C, lo2)
    return mat(R, C, ite(geq(ROW, COL), lo, sw))


# -------------------------------------------------------------------------------- assumptions and equality
def assume_lits(n, facts, memo=None):
    """simplify n given facts: dict (X, kind) -> literal known to hold"""
    if memo is None:
        memo = {}

    keys = frozenset(facts)

    def f(x):
        if keys.isdisjoint(lit_vars(x)):
            return x
        if x.op == "lit":
            l = facts.get((x.args[0], x.args[1]))
            if l is not None:
                m = _lit_merge(l, x, False)
                if m is FALSE:
                    return FALSE
                if m is l:
                    return TRUE
                return x if m is x else None
        return None
    return rewrite(n, f, memo)


def facts_of(c, facts=None):
    facts = dict(facts or {})
    for l in conjuncts(c):
        if l.op == "lit":
            k = (l.args[0], l.args[1])
            if k in facts:
                facts[k] = _lit_merge(facts[k], l, False)
            else:
                facts[k] = l
    return facts


def assume_bool(n, c, val):
    """simplify n assuming the condition c has value val"""
    cc = c if val else not_(c)
    f = facts_of(cc)
    f = {k: v for k, v in f.items() if v.op == "lit"}
    r = assume_lits(n, f) if f else n
    if cc.op in ("or",) or c.op not in ("lit", "and", "or"):
        t, u = (TRUE, FALSE) if val else (FALSE, TRUE)
        r = rewrite(r, lambda x: t if x is c else None)
    elif c.op == "and" and not val:
        r = rewrite(r, lambda x: FALSE if x is c else None)
    return r


def without_idle(c):
    """a small condition without the finite-valued variables it mentions but does not depend on"""
    if c.op not in ("and", "or") or c.size > 120:
        return c
    for x in sorted(atoms_of(c, lambda y: y.op == "lit" and y.args[1] == "f"), key=lambda y: y.id):
        v, dom = x.args[0], x.args[2][1]
        if not contains(c, lambda y: y is v):
            continue
        rs = {assume_bool(c, lit_fin(v, (k,), dom), True) for k in dom}
        if len(rs) == 1:
            r, = rs
            if not contains(r, lambda y: y is v):
                c = r
                if c.op not in ("and", "or"):
                    break
    return c


_fbv = {}
_BIND = {"sum": lambda n: range(n.args[2], n.args[2] + len(n.args[0])), "forall": lambda n: (n.args[2],), "maxfold": lambda n: (n.args[3],), "stack": lambda n: (n.args[3],)}


def free_bvs(n):
    """levels of the bound variables that are free in n"""
    if n.mbv == 0:
        return EMPTY
    r = _fbv.get(n)
    if r is None:
        if n.op == "bv":
            r = frozenset((n.args[0],))
        else:
            s = set()
            for k in _iter_nodes(n.args):
                s |= free_bvs(k)
            b = _BIND.get(n.op)
            if b is not None:
                s -= set(b(n))
            r = frozenset(s)
        _fbv[n] = r
    return r


def lit_vars(n):
    """set of (X, kind) occurring in literals below n whose X is closed (no bound index variables)"""
    if n._lits is not None:
        return n._lits
    s = set()
    if n.op == "lit":
        s.add((n.args[0], n.args[1]))
        s |= lit_vars(n.args[0])
    else:
        for k in _iter_nodes(n.args):
            s |= lit_vars(k)
    if n.op == "mat":
        s = {x for x in s if not (x[0].ivs & {ROW, COL})}
    s = {x for x in s if x[0].mbv == 0 or x[1] == "f" or not free_bvs(x[0])}
    n._lits = frozenset(s)
    return n._lits


def _collect_sets(n, X, out, memo):
    if n in memo:
        return
    memo.add(n)
    if n.op == "lit" and (n.args[0], n.args[1]) == X:
        out.append(n.args[2])
    for k in _iter_nodes(n.args):
        if X in lit_vars(k):
            _collect_sets(k, X, out, memo)


def split_regions(X, nodes, facts=None):
    """partition of X's domain by the literals on X in nodes: list of literals"""
    sets = []
    memo = set()
    for n in nodes:
        _collect_sets(n, X, sets, memo)
    x, kind = X
    if kind == "f":
        dom = set()
        for v, d in sets:
            dom |= set(d)
        sig = {}
        for v in sorted(dom):
            sig.setdefault(tuple(v in s[0] for s in sets), []).append(v)
        return [lit_fin(x, vs, dom) for vs in sig.values()]
    integer = x.sort == "i"
    pts = set()
    for S in sets:
        for lo, lc, hi, hc in S:
            if lo is not None:
                pts.add(lo)
            if hi is not None:
                pts.add(hi)
    pts = sorted(pts)
    cells = []
    prev = None
    for p in pts:
        cells.append((prev, False, p, False))
        cells.append((p, True, p, True))
        prev = p
    cells.append((prev, False, None, False))
    R = iv_range(x)
    sig = {}
    for c in cells:
        c2 = iv_inter(_norm_iv([c], integer), R, integer)
        if not c2:
            continue
        k = tuple(bool(iv_inter(c2, S, integer)) for S in sets)
        sig.setdefault(k, []).extend(c2)
    out = []
    for k, cs in sig.items():
        l = lit_num(x, _norm_iv(cs, integer))
        out.append(l)
    return out


def _gaps_feasible(lits):
    """no literal contradicts what the equations determine"""
    multi, rows = [], []
    for l in lits:
        if l.op != "lit" or l.args[1] != "n":
            continue
        S = l.args[2]
        if len(S) == 1 and S[0][0] is not None and S[0][0] == S[0][2]:
            rows.append((l.args[0], S[0][0]))
        else:
            multi.append((l.args[0], S))
    if not multi or not rows:
        return True
    piv = []    # (atom, dict without it, const): atom = dict + const

    def reduce(d, k):
        for a, e, c in piv:
            v = d.pop(a, 0)
            if v:
                for x, w in e.items():
                    d[x] = d.get(x, 0) + v * w
                    if not d[x]:
                        del d[x]
                k += v * c
        return d, k
    for q, val in rows:
        d, k = reduce(dict(terms(q)), 0)
        k0 = d.pop((), 0)
        k = k + k0 - val
        d = {x: v for x, v in d.items() if v}
        if not d:
            if k != 0:
                return False
            continue
        a = min(d, key=lambda m: str([t[0].id for t in m]))
        ca = d.pop(a)
        e, c = {x: -v / ca for x, v in d.items()}, -k / ca
        for i, (b, eb, cb) in enumerate(piv):
            v = eb.pop(a, 0)
            if v:
                for x, w in e.items():
                    eb[x] = eb.get(x, 0) + v * w
                    if not eb[x]:
                        del eb[x]
                piv[i] = (b, eb, cb + v * c)
        piv.append((a, e, c))
    for q, S in multi:
        d, k = reduce(dict(terms(q)), 0)
        k += d.pop((), 0)
        if any(d.values()):
            continue
        if not any((lo is None or k > lo or (lc and k == lo)) and (hi is None or k < hi or (hc and k == hi)) for lo, lc, hi, hc in S):
            return False
    return True


def _mono_key(m):
    return tuple((x.id, e) for x, e in m)


def lin_feasible(lits):
    """consistency of numeric literals over the atoms of their linear forms (equations, then Fourier-Motzkin)"""
    cons = []   # (dict atom->coeff, const, strict): sum + const >=(>) 0
    eqs = []
    ats = set()
    lits = list(lits)
    if not _gaps_feasible(lits):
        return False
    for l in lits:
        if l.op != "lit" or l.args[1] != "n" or len(l.args[2]) != 1:
            continue
        d = dict(terms(l.args[0]))
        lo, lc, hi, hc = l.args[2][0]
        if lo is not None and lo == hi:
            eqs.append((d, -lo))
        else:
            if lo is not None:
                cons.append((d, -lo, not lc))
            if hi is not None:
                cons.append(({k: -v for k, v in d.items()}, hi, not hc))
        ats |= set(d)
    if len(cons) + 2 * len(eqs) < 2:
        return True
    for m in sorted(ats, key=_mono_key):
        if m == ():
            continue
        r = prange(from_terms({m: F1}))
        if r[0] is not None:
            cons.append(({m: F1}, -r[0], False))
        if r[1] is not None:
            cons.append(({m: -F1}, r[1], False))
    piv = {}        # atom -> (dict, const)

    def reduce(d, k):
        out = {}
        for x, v in d.items():
            if x == ():
                k += v
            elif x in piv:
                e, c = piv[x]
                k += v * c
                for y, w in e.items():
                    out[y] = out.get(y, 0) + v * w
            else:
                out[x] = out.get(x, 0) + v
        return {x: v for x, v in out.items() if v}, k
    for d, k in eqs:
        d, k = reduce(d, k)
        if not d:
            if k:
                return False
            continue
        a = min(d, key=_mono_key)
        ca = d.pop(a)
        e, c = {x: -v / ca for x, v in d.items()}, -k / ca
        for y, (ey, cy) in list(piv.items()):
            if a in ey:
                v = ey[a]
                n = {x: w for x, w in ey.items() if x != a}
                for x, w in e.items():
                    n[x] = n.get(x, 0) + v * w
                piv[y] = ({x: w for x, w in n.items() if w}, cy + v * c)
        piv[a] = (e, c)

    def tidy(cs):
        """one constraint per direction, the tightest; None: contradiction"""
        best = {}
        for d, k, strict in cs:
            if not d:
                if k < 0 or (strict and k == 0):
                    return None
                continue
            it = sorted(d.items(), key=lambda z: _mono_key(z[0]))
            s = abs(it[0][1])
            key = tuple((x, v / s) for x, v in it) if s != 1 else tuple(it)
            k = k / s
            o = best.get(key)
            if o is None or k < o[0] or (k == o[0] and strict):
                best[key] = (k, strict)
        return [(dict(key), k, strict) for key, (k, strict) in best.items()]
    cons = tidy([reduce(d, k) + (st,) for d, k, st in cons])
    while cons:
        cnt = {}
        for d, k, st in cons:
            for x, v in d.items():
                c = cnt.setdefault(x, [0, 0])
                c[v > 0] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], _mono_key(x)))
        if cnt[a][0] * cnt[a][1] > 400:
            return True
        pos = [c for c in cons if c[0].get(a, 0) > 0]
        ng = [c for c in cons if c[0].get(a, 0) < 0]
        rest = [c for c in cons if not c[0].get(a, 0)]
        for p in pos:
            for n_ in ng:
                kp, kn = p[0][a], -n_[0][a]
                d = {}
                for x, v in p[0].items():
                    d[x] = d.get(x, 0) + v * kn
                for x, v in n_[0].items():
                    d[x] = d.get(x, 0) + v * kp
                rest.append(({x: v for x, v in d.items() if v}, p[1] * kn + n_[1] * kp, p[2] or n_[2]))
        cons = tidy(rest)
    return cons is not None


class Budget(Exception):
    pass


def _num_equal(a, b):
    """rational-function equality of scalars without gates"""
    d = sub(a, b)
    if d is ZERO:
        return True
    if d.op == "num":
        return False
    # clear denominators
    dens = {}
    for m, c in terms(d).items():
        for x, e in m:
            if e < 0:
                dens[x] = max(dens.get(x, 0), -e)
    if not any(x.op == "poly" for x in dens):
        return False
    tot = ZERO
    for m, c in terms(d).items():
        r = num(c)
        have = {x: e for x, e in m}
        for x, e in m:
            if e > 0 or x.op != "poly":
                r = mul(r, powi(x, e)) if e > 0 else mul(r, from_terms({((x, e),): F1}))
        for x, E in dens.items():
            if x.op == "poly":
                k = E + min(0, have.get(x, 0))
                for _ in range(k):
                    r = _raw_mul(r, x)
        tot = add(tot, r)
    return tot is ZERO


NAMED = {}        # id -> (parameter nodes, body)
_named_ids = {}
_named_inst = {}


def _deps(body):
    ds = set(atoms_of(body, lambda x: x.op == "phi")) | (body.ivs - {ROW, COL})
    return tuple(sorted(ds, key=lambda x: x.id))


def name_body(body):
    """abbreviate an element function over ROW/COL: el(named(id, free symbols), ROW, COL)"""
    i = _named_ids.get(body)
    if i is None:
        i = _named_ids[body] = len(_named_ids)
        NAMED[i] = (_deps(body), body)
    n = mk("named", i, *NAMED[i][0], sort="o")
    return elem(n, ROW if ROW in body.ivs else ZERO, COL if COL in body.ivs else ZERO)


def name_scalar(v):
    i = _named_ids.get(v)
    if i is None:
        i = _named_ids[v] = len(_named_ids)
        NAMED[i] = (_deps(v), v)
    return mk("nscal", i, *NAMED[i][0], sort=v.sort)


def name_bool(c):
    """abbreviate a condition: a 0/1 valued named scalar"""
    n = not_(c)
    if ite(n, ONE, ZERO) in _named_ids:
        return not_(geq(name_scalar(ite(n, ONE, ZERO)), ONE))
    return geq(name_scalar(ite(c, ONE, ZERO)), ONE)


def named_body(n):
    """definition of a named / nscal node over ROW, COL"""
    r = _named_inst.get(n)
    if r is None:
        ps, body = NAMED[n.args[0]]
        ivm, oth = {}, {}
        for p, v in zip(ps, n.args[1:]):
            if p is not v:
                (ivm if p.op == "iv" else oth)[p] = v
        r = body
        if oth:
            r = rewrite(r, lambda x: oth.get(x))
        if ivm:
            r = subst(r, ivm)
        _named_inst[n] = r
    return r


def unfold_named(n, all_=False, memo=None):
    """replace elements of named (abbreviated) matrices / scalars by their definitions (one level / all levels)"""
    def f(x):
        if x.op == "el" and x.args[0].op == "named":
            b = named_body(x.args[0])
            if all_:
                b = rewrite(b, f)
            return subst(b, {ROW: rewrite(x.args[1], f), COL: rewrite(x.args[2], f)})
        if x.op == "nscal":
            b = named_body(x)
            return rewrite(b, f) if all_ else b
        return None
    return rewrite(n, f)


def has_named(n, memo=None):
    return contains(n, lambda x: x.op in ("named", "nscal"))


def _is_sum(x):
    return x.op == "sum"


def _halves(c):
    """the indicator of a conjunction as signed indicators of upper half lines and equations: [(coefficient, literals)]"""
    out = [(1, ())]
    for l in conjuncts(c):
        alt = [(1, (l,))]
        if l.op == "lit" and l.args[1] == "n":
            q, S = l.args[0], l.args[2]
            alt = []
            const = 0
            for lo, lc, hi, hc in S:
                if lo is not None and lo == hi:
                    alt.append((1, (cmp(q, "==", num(lo)),)))
                    continue
                if lo is None:
                    const += 1
                else:
                    alt.append((1, (cmp(q, ">=" if lc else ">", num(lo)),)))
                if hi is not None:
                    if hi is not None and S[-1][0] is not None and len(S) == 2 and S[0][2] is not None and S[0][0] is None and q.sort == "i" and S[1][0] - S[0][2] == 2:
                        alt = None
                        break
                    alt.append((-1, (cmp(q, ">" if hc else ">=", num(hi)),)))
            if alt is None:     # everything but one point
                alt = [(1, ()), (-1, (cmp(q, "==", num(S[0][2] + 1)),))]
            elif const:
                alt.append((const, ()))
        out = [(k1 * k2, x + y) for k1, x in out for k2, y in alt]
        if len(out) > 64:
            return None
    return out


def polar(n):
    """sums with the indicators below them written over upper half lines"""
    def f(x):
        if x.op != "sum":
            return None
        vs, body = open_sum(x)
        body = polar(body) if contains(body, _is_sum) else body
        out = []
        for m, c in terms(body).items():
            acc = [(1, ())]
            rest = []
            for a, e in m:
                if a.op == "ind":
                    h = _halves(a.args[0])
                    if h is None:
                        return None
                    acc = [(k1 * k2, p + q) for k1, p in acc for k2, q in h]
                else:
                    rest.append((a, e))
            if len(acc) > 64:
                return None
            r = from_terms({tuple(rest): c})
            for k, ls in acc:
                g = and_(*ls) if ls else TRUE
                out.append(scale(r if g is TRUE else mul_ind(g, r), k))
        return mk_sum(vs, add(*out)) if out else ZERO
    return rewrite(n, f)


_sc_depth = [0]


def sums_cancel(a, b, facts):
    """the sums in a - b vanish term by term under the facts about free index variables"""
    if _sc_depth[0] or a.sort not in ("r", "i") or b.sort not in ("r", "i") or a.size + b.size > 3000:
        return False
    if not (contains(a, _is_sum) or contains(b, _is_sum)):
        return False
    d = sub(a, b)
    groups = {}
    for m, c in terms(d).items():
        ss = [x for x, e in m if x.op == "sum" and e == 1]
        if len(ss) != 1:
            return False
        rest = tuple(t for t in m if t[0] is not ss[0])
        groups.setdefault((rest, ss[0].args[0], ss[0].args[2]), []).append((ss[0], c))
    _sc_depth[0] += 1
    try:
        for (rest, doms, lv), ss in groups.items():
            vs = None
            tot = ZERO
            for n, c in ss:
                w, body = open_sum(n)
                if vs is None:
                    vs = w
                else:
                    body = subst(body, {x: y for (x, _), (y, _) in zip(w, vs)})
                tot = add(tot, scale(body, c))
            rng = [l for v, n in vs for l in (geq(v, ZERO), lt(v, n))]
            by = {}
            for m, c in terms(tot).items():
                key = tuple(t for t in m if t[0].op != "ind")
                g = mulall(num(c), *[x for x, e in m if x.op == "ind"])
                by[key] = add(by.get(key, ZERO), g)
            under = and_(*rng, *[f for f in facts.values() if f.ivs])
            for k, g in by.items():
                if g is ZERO:
                    continue
                if decide(g, ZERO, under, 400)[0] is not True:
                    return False
        return True
    finally:
        _sc_depth[0] -= 1


def leaf_equal(a, b):
    if a is b:
        return True
    if a.op == "mat" and b.op == "mat":
        if not (leaf_equal(a.args[0], b.args[0]) and leaf_equal(a.args[1], b.args[1])):
            return False
        ra, rb = m_body(a), m_body(b)
        if a.args[3] or b.args[3]:
            regs = {o[:4] for o in a.args[3]} | {o[:4] for o in b.args[3]}
            for r in regs:
                x, y = m_read(a, *r), m_read(b, *r)
                if not leaf_equal(m_body(x), m_body(y)):
                    return False
            if not (_tiles(a) or _tiles(b)):
                return leaf_equal(a.args[2], b.args[2])
            return True
        return leaf_equal(ra, rb)
    if a.sort in ("r", "i") and b.sort in ("r", "i"):
        if _num_equal(a, b):
            return True
        if (contains(a, _is_sum) or contains(b, _is_sum)) and a.size + b.size < 6000:
            pa, pb = polar(a), polar(b)
            if (pa is not a or pb is not b) and _num_equal(pa, pb):
                return True
    if a.op == b.op and a.op not in ("num", "iv", "bv", "sum", "poly", "max", "maxfold", "forall", "el") and len(a.args) == len(b.args):
        def go(x, y):
            if isinstance(x, Node) and isinstance(y, Node):
                return leaf_equal(x, y)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(go(p, q) for p, q in zip(x, y))
            return x == y
        return go(a.args, b.args)
    return False


def names_in(n):
    return atoms_of(n, lambda x: x.op in ("named", "nscal"))


def unfold_only(n, which):
    def f(x):
        if x.op == "el" and x.args[0] in which:
            return subst(named_body(x.args[0]), {ROW: rewrite(x.args[1], f, memo), COL: rewrite(x.args[2], f, memo)})
        if x.op == "nscal" and x in which:
            return named_body(x)
        return None
    memo = {}
    return rewrite(n, f, memo)


BIG = 400


def equal(a, b, under=TRUE, depth=24):
    """returns (True, None) or (False, (facts, a', b')) - a,b compared gate case by gate case"""
    facts = {k: v for k, v in facts_of(under).items() if v.op == "lit"}
    compound = [c for c in conjuncts(under) if c.op != "lit"]
    budget = [6000]
    try:
        return _equal(a, b, facts, compound, budget, depth)
    except Budget:
        return (None, ("case budget exceeded", a, b))


def _equal(a, b, facts, compound, budget, depth):
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    if facts:
        a, b = _apply(a, facts), _apply(b, facts)
    if a is b:
        return (True, None)
    comp = []
    for c in compound:
        c2 = _apply(c, facts) if facts else c
        if c2 is FALSE:
            return (True, None)
        if c2 is not TRUE:
            if c2.op == "lit" or c2.op == "and":
                nf = {k: v for k, v in facts_of(c2, facts).items()}
                if any(v is FALSE for v in nf.values()):
                    return (True, None)
                return _equal(a, b, {k: v for k, v in nf.items() if v.op == "lit"}, [x for x in conjuncts(c2) if x.op != "lit"] + [x for x in compound if x is not c], budget, depth)
            comp.append(c2)
    vs = lit_vars(a) | lit_vars(b)
    vs = {v for v in vs if not (v in facts and len(split_regions(v, (a, b, facts[v]))) and _decided(v, (a, b), facts))}
    if not vs:
        r = leaf_equal(a, b) or sums_cancel(a, b, facts)
        if r:
            return (True, None)
        if depth > 0:
            na, nb = names_in(a), names_in(b)
            if na or nb:
                only = (na | nb) - (na & nb) or (na | nb)
                top = max(x.args[0] for x in only)
                # definitions refer to earlier definitions: unfold the latest ones first
                pick = {x for x in only if x.args[0] == top}
                if a.size + b.size > BIG and not comp and a.sort == "r" and not any(X[0].op == "nscal" for X in facts):
                    from . import reval     # settle a mismatch before everything is written out
                    if reval.separated(a, b, list(facts.values())):
                        return (False, (facts, a, b))
                a2, b2 = unfold_only(a, pick), unfold_only(b, pick)
                if a2 is not a or b2 is not b:
                    return _equal(a2, b2, facts, comp, budget, depth - 1)
        for c in comp:     # remaining assumptions may still be contradictory: expand them
            vv = lit_vars(c)
            if vv:
                X = min(vv, key=lambda t: t[0].id)
                for l in split_regions(X, (c,)):
                    nf = _with(facts, X, l)
                    if nf is None:
                        continue
                    r = _equal(a, b, nf, comp, budget, depth)
                    if r[0] is not True:
                        return r
                return (True, None)
        if not lin_feasible(list(facts.values())):
            return (True, None)
        if depth > 0:
            # facts about abbreviated conditions may contradict each other: expand the latest definition
            fl = [X for X in facts if X[0].op == "nscal" and X[0].sort == "i"]
            if fl:
                X = max(fl, key=lambda t: (t[0].args[0], t[0].id))
                c = unfold_only(facts[X], {X[0]})
                nf = {k: v for k, v in facts.items() if k is not X}
                if c is FALSE:
                    return (True, None)
                return _equal(a, b, nf, comp + [x for x in conjuncts(c) if x is not TRUE], budget, depth - 1)
        return (False, (facts, a, b))
    X = min(vs, key=lambda t: (t[0].size, t[0].id))
    for l in split_regions(X, (a, b)):
        nf = _with(facts, X, l)
        if nf is None or not lin_feasible(list(nf.values())):
            continue
        r = _equal(a, b, nf, comp, budget, depth)
        if r[0] is not True:
            return r
    return (True, None)


def _decided(X, nodes, facts):
    """all literals on X below nodes are decided by facts"""
    l = facts[X]
    sets = []
    memo = set()
    for n in nodes:
        _collect_sets(n, X, sets, memo)
    for S in sets:
        o = mk("lit", X[0], X[1], S, sort="b")
        m = _lit_merge(l, o, False)
        if m is not FALSE and m is not l:
            return False
    return True


def _with(facts, X, l):
    nf = dict(facts)
    if l is TRUE:
        return nf
    if X in nf:
        m = _lit_merge(nf[X], l, False)
        if m is FALSE:
            return None
        if m.op == "lit":
            nf[X] = m
    elif l.op == "lit":
        nf[X] = l
    return nf


def _apply(n, facts):
    n = assume_lits(n, facts)
    # numeric point facts on atoms: substitute the value
    pts = {}
    for (x, k), l in facts.items():
        if k == "n" and l.op == "lit":
            S = l.args[2]
            if len(S) == 1 and S[0][0] is not None and S[0][0] == S[0][2] and x.op not in ("poly", "num"):
                pts[x] = num(S[0][0])
    if pts:
        m = rewrite(n, lambda x: pts.get(x))
        if m is not n:      # the values may settle further literals
            n = assume_lits(m, facts)
    return n


def implies(p, q, under=TRUE):
    """p => q, decided case by case; returns (True, None) / (False, info)"""
    return equal(and_(p, not_(q)), FALSE, under)


# ------------------------------------------------------------------------------------------------ printing
def show(n, d=0):
    if d > 14:
        return "..."
    op, a = n.op, n.args
    if op == "num":
        return str(a[0])
    if op == "iv":
        return a[0]
    if op == "bv":
        return "$%d" % a[0]
    if op == "poly":
        out = []
        for m, c in a:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for x, e in m:
                s = show(x, d + 1)
                if x.op == "poly":
                    s = "(" + s + ")"
                f.append(s if e == 1 else "%s^%d" % (s, e))
            out.append("*".join(f))
        return " + ".join(out).replace("+ -", "- ")
    if op == "lit":
        x, k, S = a
        if k == "n":
            parts = []
            for lo, lc, hi, hc in S:
                if lo is not None and lo == hi:
                    parts.append("== %s" % lo)
                else:
                    t = []
                    if lo is not None:
                        t.append("%s %s" % (">=" if lc else ">", lo))
                    if hi is not None:
                        t.append("%s %s" % ("<=" if hc else "<", hi))
                    parts.append(" & ".join(t))
            return "[%s %s]" % (show(x, d + 1), " | ".join(parts))
        if S[1] == (0, 1):
            return ("" if S[0] == (1,) else "!") + show(x, d + 1)
        return "[%s in %s]" % (show(x, d + 1), list(S[0]))
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(show(x, d + 1) for x in a) + ")"
    if op == "ind":
        return "<" + show(a[0], d + 1) + ">"
    if op == "sum":
        return "SUM{%s}(%s)" % (",".join("$%d<%s" % (a[2] + i, show(x, d + 1)) for i, x in enumerate(a[0])), show(a[1], d + 1))
    if op == "el":
        return "%s[%s,%s]" % (show(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1)) if a[2] is not ZERO else "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if op == "max":
        return "max(" + ", ".join(show(x, d + 1) for x in a[0]) + ")"
    if op == "mat":
        s = "M<%sx%s>{%s" % (show(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1))
        for o in a[3]:
            s += "; @(%s,%s %sx%s): %s" % tuple(show(x, d + 1) for x in o)
        return s + "}"
    if op == "sym":
        return str(a[0])
    if op == "named":
        return "V%d" % a[0]
    if op == "nscal":
        return "v%d" % a[0]
    if op == "phi":
        return "phi:" + str(a[0]).rsplit("|", 1)[-1] + (str(a[1]) if len(a) > 1 else "")
    if op == "fld":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if op == "enum":
        return "%s#%s" % (a[0].split("::")[-1], a[1])

    def sh(x):
        if isinstance(x, Node):
            return show(x, d + 1)
        if isinstance(x, tuple):
            return "(" + ",".join(sh(y) for y in x) + ")"
        return str(x)
    return op + ("(" + ", ".join(sh(x) for x in a) + ")" if a else "")


def brief(n, lim=240):
    s = show(n) if isinstance(n, Node) else str(n)
    return s if len(s) <= lim else s[:lim] + "..."


# ------------------------------------------------------------------------------------------------ case analysis with definitions
def _flag(X):
    return X[0].op == "nscal" and X[0].sort == "i"


def _propagate(facts, comps, done):
    """unit propagation including the definitions of abbreviated conditions; None if contradictory"""
    while True:
        changed = False
        for X in [x for x in facts if _flag(x) and x not in done]:
            done = done | {X}
            c = unfold_only(facts[X], {X[0]})
            if c is FALSE:
                return None
            comps = list(comps) + [x for x in conjuncts(c) if x is not TRUE]
            changed = True
        nc = []
        for c in comps:
            c2 = _apply(c, facts) if facts else c
            if c2 is FALSE:
                return None
            if c2 is TRUE:
                continue
            if c2.op in ("lit", "and"):
                ls = conjuncts(c2)
                nf = facts_of(and_(*[x for x in ls if x.op == "lit"]), facts)
                if any(v is FALSE for v in nf.values()):
                    return None
                nf = {k: v for k, v in nf.items() if v.op == "lit"}
                if any(facts.get(k) is not v for k, v in nf.items()):
                    facts = nf
                    changed = True
                nc += [x for x in ls if x.op != "lit"]
                if any(x.op != "lit" for x in ls):
                    changed = True
            else:
                nc.append(c2)
        comps = list(dict.fromkeys(nc))
        if not changed:
            return facts, comps, done


def _expandable(n):
    b = named_body(n)
    return b.size <= 800 and contains(b, lambda x: x.op in ("ind", "max", "nscal", "lit"))


_rat = {}


def _rational(n):
    """the definition divides or takes roots"""
    r = _rat.get(n)
    if r is None:
        r = _rat[n] = contains(named_body(n), lambda x: x.op == "sqrt" or (x.op == "poly" and any(e < 0 for m, _ in x.args for _, e in m)))
    return r


def _real_names(n):
    return {x for x in names_in(n) if x.op == "nscal" and x.sort == "r" and _expandable(x)}


def _free_expand(facts, comps):
    """replace facts about abbreviated values by facts about their definitions where no case split is needed"""
    changed = False
    for X in list(facts):
        l = facts[X]
        seen = False
        others = None
        stuck = set()
        while True:
            ns = {x for x in _real_names(X[0] if l is facts.get(X) else l) - stuck if not _rational(x)}
            if not ns:
                break
            top = max(ns, key=lambda x: x.args[0])
            if others is None:
                others = {k: v for k, v in facts.items() if k is not X}
            l2 = _apply(unfold_only(l, {top}), others)
            if l2 is FALSE:
                return None
            if l2 is not TRUE and l2.op != "lit":
                stuck.add(top)
                continue
            seen, l = True, l2
            if l is TRUE:
                break
        if seen:
            facts = {k: v for k, v in facts.items() if k is not X}
            comps = comps + [l]
            changed = True
    return facts, comps, changed


def goal_terms(q, limit=6):
    """the goal and the definitions of the values it mentions: their conditions are split first"""
    out, todo = [], [(q, 0)]
    seen = set()
    while todo:
        n, d = todo.pop(0)
        out.append(n)
        if d >= limit:
            continue
        for x in names_in(n):
            if x.op == "nscal" and x.sort == "r" and x not in seen and _expandable(x) and not _rational(x):
                seen.add(x)
                todo.append((named_body(x), d + 1))
    return out


def infeasible(facts, comps, done, budget, goal=(), used=EMPTY):
    """True: the assumptions contradict each other; False: a consistent case was found; None: gave up"""
    budget[0] -= 1
    if budget[0] < 0:
        return None
    while True:
        r = _propagate(facts, comps, done)
        if r is None:
            return True
        facts, comps, done = r
        if not lin_feasible(list(facts.values())):
            return True
        r = _free_expand(facts, comps)
        if r is None:
            return True
        facts, comps, again = r
        if not again:
            break
    if goal:
        gs = [_apply(g, facts) for g in goal]
        cand = set()
        for g in gs:
            cand |= lit_vars(g)
        cand -= used
        cand = {v for v in cand if not (v in facts and _decided(v, gs, facts)) and not names_in(v[0])} or \
               {v for v in cand if not (v in facts and _decided(v, gs, facts))}
        if cand:
            X = min(cand, key=lambda t: (t[0].size, t[0].id))
            for l in split_regions(X, tuple(gs)):
                nf = _with(facts, X, l)
                if nf is None:
                    continue
                r = infeasible(nf, comps, done, budget, gs, used | {X})
                if r is not True:
                    return r
            return True
    best = None
    for c in comps:
        vv = lit_vars(c)
        if not vv:
            continue
        k = c.size
        if best is None or k < best[0]:
            best = (k, c, vv)
    if best is None:
        names = set()
        for X in facts:
            names |= _real_names(X[0])
        for c in comps:
            names |= _real_names(c)
        if not names:
            for X in facts:
                names |= {x for x in names_in(X[0]) if not _flag((x,))}
        if not names:
            return False
        top = max(names, key=lambda x: x.args[0])
        nf, nc = {}, []
        for X, l in facts.items():
            if contains(X[0], lambda y: y is top):
                nc.append(unfold_only(l, {top}))
            else:
                nf[X] = l
        return infeasible(nf, nc + [unfold_only(c, {top}) for c in comps], done, budget)
    c, vv = best[1], best[2]
    if c.op == "or":
        units = [x for x in c.args if x.op == "lit"]
        a = min(units, key=lambda x: x.id) if units else min(c.args, key=lambda x: x.size)
        for g, rest in ((a, None), (not_(a), c)):
            r = infeasible(facts, ([x for x in comps if x is not c] if rest is None else comps) + [g], done, budget)
            if r is not True:
                return r
        return True
    X = min(vv, key=lambda t: (t[0].size, t[0].id))
    for l in split_regions(X, (c,)):
        nf = _with(facts, X, l)
        if nf is None:
            continue
        r = infeasible(nf, comps, done, budget)
        if r is not True:
            return r
    return True


def split_max(n):
    """max(x, y) outside of sums written with the conditions of its cases"""
    def f(x):
        if x.op == "max" and isinstance(x.args[0], tuple) and len(x.args[0]) <= 3 and x.ivs <= n.ivs and not free_bvs(x):
            xs = list(x.args[0])
            r = xs[0]
            for y in xs[1:]:
                c = geq(y, r)
                r = add(mul_ind(c, y), mul_ind(not_(c), r))
            return r
        return None
    return rewrite(n, f)


def decide(a, b, under=TRUE, budget=4000):
    """like equal(), for assumptions with much case structure: (True|False|None, (facts, a, b))"""
    B = [budget]
    comps = [c for c in conjuncts(under) if c is not TRUE]
    try:
        return _decide(a, b, {}, comps, frozenset(), B, 40)
    except Budget:
        return (None, ({}, a, b))


def _decide(a, b, facts, comps, done, B, depth):
    B[0] -= 1
    if B[0] < 0:
        raise Budget()
    r = _propagate(facts, comps, done)
    if r is None:
        return (True, None)
    facts, comps, done = r
    if facts:
        a, b = _apply(a, facts), _apply(b, facts)
    if a is b:
        return (True, None)
    if not lin_feasible(list(facts.values())):
        return (True, None)
    vs = lit_vars(a) | lit_vars(b)
    vs = {v for v in vs if not (v in facts and _decided(v, (a, b), facts))}
    if vs:
        X = min(vs, key=lambda t: (t[0].size, t[0].id))
        for l in split_regions(X, (a, b)):
            nf = _with(facts, X, l)
            if nf is None:
                continue
            r = _decide(a, b, nf, comps, done, B, depth)
            if r[0] is not True:
                return r
        return (True, None)
    if leaf_equal(a, b) or sums_cancel(a, b, facts):
        return (True, None)
    a2, b2 = split_max(a), split_max(b)
    if a2 is not a or b2 is not b:
        more = [m for m in (split_max(l) for l in facts.values()) if m not in facts.values()]
        return _decide(a2, b2, facts, comps + more, done, B, depth)
    inf = infeasible(facts, comps, done, B)
    if inf is True:
        return (True, None)
    if depth > 0:
        na, nb = names_in(a), names_in(b)
        if na or nb:
            only = (na | nb) - (na & nb) or (na | nb)
            top = max(x.args[0] for x in only)
            pick = {x for x in only if x.args[0] == top}
            a2, b2 = unfold_only(a, pick), unfold_only(b, pick)
            if a2 is not a or b2 is not b:
                more = [m for m in (unfold_only(l, pick) for X, l in facts.items() if not _flag(X)) if m not in facts.values()]
                return _decide(a2, b2, facts, comps + more, done, B, depth - 1)
    return (False if inf is False else None, (facts, a, b))


def entails(p, q, budget=3000):
    """p => q: (True|False|None, info)"""
    have = set(conjuncts(p))
    qs = [c for c in conjuncts(q) if c not in have]
    if not qs:
        return (True, None)
    if len(qs) > 1:
        for c in qs:
            r = entails(p, c, budget)
            if r[0] is not True:
                return r
        return (True, None)
    nq = not_(qs[0])
    comps = [c for c in conjuncts(p)] + [c for c in conjuncts(nq)]
    r, last = None, None
    gt_ = goal_terms(nq)
    for goal, b in (((), 100), (gt_, 200), ((), budget), (gt_, budget)):
        r = infeasible({}, list(comps), frozenset(), [b], goal)
        if r is True or (r is False and last is False):
            break
        if r is None and last is False:
            r = None
        last = r
    return (r, None) if r is True else (r, ({}, TRUE, FALSE))
