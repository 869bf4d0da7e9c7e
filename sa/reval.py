"""Random interpretation of value-graph expressions (Gulwani/Necula style).

Used only to keep the comparison of two normal forms from raising an alarm when they differ merely in shape:
the two expressions are evaluated over exact rationals under a few random interpretations of their free
symbols (uninterpreted operators are interpreted by a hash of their evaluated operands).  If every
interpretation agrees the comparison is reported as undecided, never as a violation."""
from fractions import Fraction
import hashlib
from .terms import *
from .terms import open_sum, open_forall, _replace_bv, bound_of, named_body
from . import terms as T


class Giveup(Exception):
    pass


_opened = {}


def opened(n):
    """the parts of a binder over a fresh index: bound levels would be captured by binders inside of abbreviations"""
    r = _opened.get(n)
    if r is None:
        lv = n.args[2] if n.op == "forall" else n.args[3]
        v = iv(fresh("o"))
        r = _opened[n] = (v,) + tuple(_replace_bv(x, {T.bv(lv): v}, {}) if isinstance(x, Node) else x for x in n.args)
    return r


class Valuation:
    def __init__(self, seed, steps=400000):
        self.seed = seed
        self.steps = steps
        self.memo = {}

    def h(self, *key):
        return int.from_bytes(hashlib.sha256(repr((self.seed,) + key).encode()).digest()[:8], "big")

    def real(self, *key):
        x = self.h(*key)
        if self.seed[1] % 3 == 2 and (x >> 24) % 3 == 0:     # every third interpretation has many zeros
            return Fraction(0)
        return Fraction(x % 19 - 9 or 5, 1 + (x >> 8) % 3)

    SCALES = (1, 1000, Fraction(1, 1000), 10 ** 6)

    def scalar(self, *key):
        """values of plain scalars also cover very different magnitudes"""
        x = self.real(*key)
        return x if self.seed[1] % 2 == 0 else x * self.SCALES[(self.h(*key) >> 16) % 4]

    def key(self, n, env):
        if isinstance(n, Node):
            return self.ev(n, env)
        if isinstance(n, tuple):
            return tuple(self.key(x, env) for x in n)
        return n

    def atom(self, n, env):
        op = n.op
        k = (op,) + tuple(self.key(a, env) for a in n.args)
        if n.sort == "i":
            b = bound_of(n)
            lo, hi = 0, None
            if b is not None:
                lo = self.ev(num(b[0]), env) if b[0] is not None else 0
                hi = self.ev(b[1], env) if b[1] is not None else None
            if hi is not None:
                return Fraction(lo + self.h(k) % max(1, int(hi - lo)))
            return Fraction(lo + self.h(k) % 3)
        if n.sort == "e":
            return ("e", self.h(k) % 4)
        if n.sort == "b":
            return bool(self.h(k) & 1)
        if n.sort == "o":
            return k
        return self.scalar(k) if op in ("fld", "in") else self.real(k)

    def ev(self, n, env):
        self.steps -= 1
        if self.steps < 0:
            raise Giveup("too many steps")
        free = tuple((v, env[v]) for v in n.ivs if v in env) if n.ivs else ()
        if n.mbv:
            free += tuple((v, x) for v, x in env.items() if v.op == "bv" and v.args[0] <= n.mbv)
        k = (n, free)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.ev1(n, env)
        return r

    def rng(self, d, env):
        n = self.ev(d, env)
        if not isinstance(n, Fraction) or n > 12:
            raise Giveup("range")
        return range(int(n))

    def mat(self, m, env):
        R, C = self.rng(m.args[0], env), self.rng(m.args[1], env)
        b = T.m_body(m)
        return ("M", len(R), len(C), tuple(self.ev(b, {**env, ROW: Fraction(i), COL: Fraction(j)}) for i in R for j in C))

    def ev1(self, n, env):
        op, a = n.op, n.args
        if op == "num":
            return a[0]
        if op in ("iv", "bv"):
            v = env.get(n)
            return v if v is not None else Fraction(self.h(op, a[0]) % 3)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "poly":
            t = Fraction(0)
            for m, c in a:
                x = c
                # cheap factors first: a zero factor hides undefined ones
                for y, e in sorted(m, key=lambda z: (z[0].op != "ind", z[1] < 0)):
                    v = self.ev(y, env)
                    if not isinstance(v, Fraction):
                        raise Giveup("non-numeric factor " + y.op)
                    if v == 0:
                        x = Fraction(0)
                        break
                    x *= v ** e
                t += x
            return t
        if op == "ind":
            return Fraction(1 if self.ev(a[0], env) else 0)
        if op == "and":
            return all(self.ev(x, env) for x in a)
        if op == "or":
            return any(self.ev(x, env) for x in a)
        if op == "lit":
            x = self.ev(a[0], env)
            if a[1] == "n":
                for lo, lc, hi, hc in a[2]:
                    if (lo is None or x > lo or (lc and x == lo)) and (hi is None or x < hi or (hc and x == hi)):
                        return True
                return False
            vals, dom = a[2]
            if isinstance(x, bool):
                x = int(x)
            elif isinstance(x, tuple):
                d = sorted(dom, key=repr)
                x = d[x[1] % len(d)] if x[0] == "e" and isinstance(x[1], int) else x
            return x in vals
        if op == "enum":
            return ("E",) + tuple(a[:2])
        if op == "sum":
            vs, body = open_sum(n)

            def go(i, env):
                if i == len(vs):
                    return self.ev(body, env)
                t = Fraction(0)
                for j in self.rng(vs[i][1], env):
                    t += go(i + 1, {**env, vs[i][0]: Fraction(j)})
                return t
            return go(0, env)
        if op == "forall":
            i, d, b, lv = opened(n)
            return all(self.ev(b, {**env, i: Fraction(j)}) for j in self.rng(d, env))
        if op == "max":
            vs = [self.ev(x, env) for x in a[0]]
            vs = [v for v in vs if v is not None]
            return max(vs)
        if op == "maxfold":
            i, d, c, x, lv = opened(n)
            out = None
            for j in self.rng(d, env):
                e2 = {**env, i: Fraction(j)}
                if self.ev(c, e2):
                    v = self.ev(x, e2)
                    out = v if out is None or v > out else out
            return out if out is not None else Fraction(-10 ** 9)
        if op in ("fold", "stack"):
            i, d, g, u, lv, ent = opened(n)
            x = self.ev(a[4], env)
            for j in self.rng(d, env):
                e2 = {**env, i: Fraction(j)}
                if self.ev(g, e2):
                    x = self.ev(u, {**e2, OLD: x})
            return x
        if op == "sqrt":
            x = self.ev(a[0], env)
            return abs(self.real("sqrt", x))
        if op == "gite":
            return self.ev(a[1] if self.ev(a[0], env) else a[2], env)
        if op == "mat":
            return self.mat(n, env)
        if op == "el":
            if a[0].op == "named":
                return self.ev(subst(named_body(a[0]), {ROW: a[1], COL: a[2]}), env)
            i, j = self.ev(a[1], env), self.ev(a[2], env)
            nm = a[0]
            if nm.op == "symm" and j > i:
                i, j = j, i
            return self.real("el", self.key(nm, env), i, j)
        if op == "nscal":
            return self.ev(named_body(n), env)
        if op == "named":
            return ("named", self.ev(T.mk("lamrc", named_body(n), sort="o"), env)) if False else ("named", a[0])
        if op == "opq":
            raise Giveup("opaque")
        if op in ("list", "rec"):
            return (op,) + tuple(self.key(x, env) for x in a)
        return self.atom(n, env)


def agree(a, b, trials=60, seed=1, facts=()):
    """True: a and b agree under all (decidable) random interpretations; False: one tells them apart; None: no answer"""
    seen = skipped = 0
    facts = list(facts)
    if facts:
        trials *= 3
    if a.sort == "b" or b.sort == "b" or a in (TRUE, FALSE) or b in (TRUE, FALSE):
        trials *= 2
    for t in range(trials):
        v = Valuation((seed, t))
        env = {}
        for x in sorted(set(a.ivs | b.ivs).union(*[f.ivs for f in facts]), key=lambda z: z.id):
            env[x] = Fraction(v.h("env", x.args[0]) % 2)
        try:
            x, y = v.ev(a, env), v.ev(b, env)
        except (Giveup, ZeroDivisionError, TypeError, OverflowError, RecursionError, ValueError):
            continue
        if x != y:
            if facts:
                try:
                    if not all(v.ev(f, env) for f in facts):
                        skipped += 1
                        continue
                except (Giveup, ZeroDivisionError, TypeError, OverflowError, RecursionError, ValueError, KeyError):
                    skipped += 1
                    continue
            return False
        seen += 1
    return True if seen and not skipped else None


def separated(a, b, facts, trials=160, want=2, steps=40000, positive=()):
    """does one of a few interpretations that satisfy the facts tell a and b apart?  (None: too few were found)"""
    met = 0
    for t in range(trials):
        if t % 3 == 2:      # the interpretations with many zeros: a cancelled factor may be zero
            continue
        v = Valuation((11, t), steps)
        for x in positive:
            v.memo[(x, ())] = Fraction((1, 1, 2, 3, 5)[v.h("p", x.args) % 5], (1, 2, 3)[v.h("q", x.args) % 3])
        env = {}
        try:
            for x in sorted(set(a.ivs | b.ivs).union(*[f.ivs for f in facts]) if facts else set(a.ivs | b.ivs), key=lambda z: z.id):
                env[x] = Fraction(v.h("env", x.args[0]) % 2)
            if not all(v.ev(f, env) for f in facts):
                continue
            if v.ev(a, env) != v.ev(b, env):
                return True
        except (Giveup, ZeroDivisionError, TypeError, OverflowError, RecursionError, ValueError, KeyError):
            continue
        met += 1
        if met >= want:
            return False
    return None
