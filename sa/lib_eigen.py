"""Models of the Eigen operations: matrices are element functions of (row, column), views are references with a path step."""
from .values import *
from .values import merge

LOWER, UPPER, UNIT, ZEROD = 1, 2, 4, 8

VIEW_FIX = {"topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "block", "head", "segment", "tail",
            "topRows", "bottomRows", "leftCols", "rightCols", "middleCols", "middleRows", "col", "row", "diagonal",
            "transpose", "noalias", "array", "matrix", "triangularView", "selfadjointView", "derived", "const_cast_derived",
            "conjugate", "adjoint", "real", "eval", "nestedExpression", "lazyAssign_", "segments_"}
ENUM_INFO = "Eigen::ComputationInfo"


def last(q):
    d = 0
    out = []
    cur = ""
    for ch in q:
        if ch == "<" and not cur.endswith("operator") and not cur.endswith("operator<"):
            d += 1
        elif ch == ">" and d > 0 and not cur.endswith("operator-"):
            d -= 1
        elif d == 0:
            if ch == ":" and cur.endswith(":"):
                cur = ""
                continue
            cur += ch
    return cur.lstrip(":")


class Eigen:
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------------------------------------ helpers
    def fix(self, x):
        """distribute over undecided matrix values"""
        return x

    def map(self, f, *ms):
        """apply f to matrix values, distributing over gates"""
        for i, m in enumerate(ms):
            if m.op == "gite":
                m2 = self.ip.simp(m)
                a = list(ms)
                if m2.op != "gite":
                    a[i] = m2
                    return self.map(f, *a)
                a[i] = m2.args[1]
                x = self.map(f, *a)
                a[i] = m2.args[2]
                y = self.map(f, *a)
                return merge(m2.args[0], x, y)
            if m.op == "opq" or m.op not in ("mat",) and not is_scalar(m):
                return opaque("eig", *ms)
        return f(*ms)

    def rows(self, v):
        if v.op == "gite":
            return ite(v.args[0], self.rows(v.args[1]), self.rows(v.args[2]))
        return v.args[0] if v.op == "mat" else mk("rows", v, sort="i")

    def cols(self, v):
        if v.op == "gite":
            return ite(v.args[0], self.cols(v.args[1]), self.cols(v.args[2]))
        return v.args[1] if v.op == "mat" else mk("cols", v, sort="i")

    def size(self, v):
        r, c = self.rows(v), self.cols(v)
        return r if c is ONE else c if r is ONE else mul(r, c)

    def need(self, kind, cond, e):
        self.ip.oblige(kind, cond, e)

    def need_block(self, v, r0, c0, nr, nc, e):
        R, C = self.rows(v), self.cols(v)
        if r0 is not ZERO:
            self.need("block", geq(r0, ZERO), e)
        if c0 is not ZERO:
            self.need("block", geq(c0, ZERO), e)
        self.need("block", geq(nr, ZERO), e)
        self.need("block", geq(nc, ZERO), e)
        self.need("block", leq(add(r0, nr), R), e)
        self.need("block", leq(add(c0, nc), C), e)

    def need_same(self, a, b, e):
        if self.rows(a) is not self.rows(b):
            self.need("dims", eqn(self.rows(a), self.rows(b)), e)
        if self.cols(a) is not self.cols(b):
            self.need("dims", eqn(self.cols(a), self.cols(b)), e)

    def vec(self, v):
        return self.cols(v) is ONE

    def obj(self, e):
        """(reference or value) of the object of a member / operator call"""
        ip = self.ip
        o = ip.ev(e["obj"]) if e["ck"] == "mem" else ip.ev(e["args"][0])
        if e.get("ar") and e["ck"] == "mem":
            o = ip.deref(ip.val(o), e)
        return o

    def step(self, o, *steps):
        ip = self.ip
        if o.op == "ref":
            return rsub(o, *steps)
        if o.op == "gite":
            return merge_refs(o.args[0], self.step(o.args[1], *steps), self.step(o.args[2], *steps))
        for s in steps:
            o = ip.proj(o, s)
        return o

    def dims(self, t):
        """static dimensions of a plain type (None for dynamic)"""
        if t is None or t.kind != "mat":
            return None, None
        r, c = t.targ(1), t.targ(2)
        return (None if r == "-1" else num(int(r))), (None if c == "-1" else num(int(c)))

    def plain(self, t):
        """plain matrix type mentioned by an expression / nullary type"""
        seen = 0
        while t is not None and isinstance(t, TyRef) and seen < 8:
            if t.kind == "mat":
                return t
            n = None
            for i in range(t.ntargs()):
                x = t.targ(i)
                if isinstance(x, TyRef) and (x.kind in ("mat", "view", "expr") or x.q.startswith("Eigen::Cwise")):
                    n = x
            t = n
            seen += 1
        return None

    # ------------------------------------------------------------------------------------------ calls
    def call(self, e, fn):
        q = fn["q"]
        if "Eigen::" not in q:
            return None
        cls = q[:q.rfind(last(q))] if last(q) else q
        n = fn.get("op")
        if n:
            n = "operator" + n
        else:
            n = last(q)
        if cls.startswith("std::") or cls.startswith("fmt::") or cls.startswith("nlohmann"):
            return None
        h = getattr(self, "c_" + n, None) if n.isidentifier() else None
        if n.startswith("operator"):
            return self.operator(n[8:].strip(), e, fn)
        if e["ck"] == "fn":
            return self.static(n, e, fn)
        if e["ck"] == "mem":
            return self.member(n, e, fn)
        return None

    def args(self, e):
        return [self.ip.rv(a) for a in e["args"]]

    def member(self, n, e, fn):
        ip = self.ip
        o = self.obj(e)
        if n in ("rows", "cols", "size", "outerSize", "innerSize"):
            v = ip.val(o)
            if v.op == "dec":
                v = v.args[1]
            return {"rows": self.rows, "cols": self.cols, "size": self.size}.get(n, lambda v: opaque(n, v))(v)
        if n in VIEW_FIX:
            return self.view(n, o, e, fn)
        v = ip.val(o)
        a = self.args(e) if n not in ("unaryExpr", "binaryExpr", "swap", "solveInPlace", "resizeLike", "compute") else None
        if v.op == "dec" or n in ("solveInPlace", "compute", "info", "rank", "matrixQ", "matrixR", "colsPermutation", "eigenvalues", "llt", "ldlt",
                                  "colPivHouseholderQr", "householderQ", "isInvertible", "matrixL", "matrixU", "vectorD", "isPositive", "determinant"):
            return self.decomp(n, o, v, a, e, fn)
        if n in ("resize", "conservativeResize"):
            return self.resize(o, v, a, n, e)
        if n == "resizeLike":
            w = ip.rv(e["args"][0])
            return self.resize(o, v, [self.rows(w), self.cols(w)], n, e)
        if n in ("setZero", "setOnes", "setConstant", "fill", "setIdentity"):
            return self.set(n, o, v, a, e)
        if n == "swap":
            r2 = ip.lv(e["args"][0])
            v2 = ip.load(r2)
            ip.store(o, v2)
            ip.store(r2, v)
            return UNSET
        if n in ("norm", "squaredNorm", "sum", "mean", "trace", "minCoeff", "maxCoeff", "lpNorm", "all", "any", "count", "allFinite", "hasNaN", "dot", "stableNorm", "value", "prod"):
            return self.reduce(n, v, a, e, fn)
        if n in ("cwiseAbs", "abs", "cwiseAbs2", "square", "abs2", "cwiseSqrt", "sqrt", "cwiseInverse", "exp", "log", "isFinite", "isNaN", "isInf", "cwiseSign", "sign"):
            f = {"cwiseAbs": abs_, "abs": abs_, "cwiseAbs2": lambda x: mul(x, x), "square": lambda x: mul(x, x), "abs2": lambda x: mul(x, x),
                 "cwiseSqrt": sqrt_, "sqrt": sqrt_, "cwiseInverse": inv, "isFinite": is_finite, "isNaN": is_nan,
                 "isInf": lambda x: and_(not_(is_finite(x)), not_(is_nan(x)))}.get(n, lambda x: fun(n, x))
            return self.map(lambda m: m_ewise(f, m), v)
        if n == "inverse":
            if fn["q"].startswith("Eigen::ArrayBase") or self.is_array(e.get("obj")):
                return self.map(lambda m: m_ewise(inv, m), v)
            return self.inverse(v)
        if n in ("cwiseProduct", "cwiseQuotient", "cwiseMax", "cwiseMin", "max", "min", "pow", "cwiseEqual"):
            f = {"cwiseProduct": mul, "cwiseQuotient": div, "cwiseMax": lambda x, y: max_(x, y), "cwiseMin": lambda x, y: min_(x, y),
                 "max": lambda x, y: max_(x, y), "min": lambda x, y: min_(x, y)}.get(n, lambda x, y: fun(n, x, y))
            return self.zip(f, v, a[0], e)
        if n == "asDiagonal":
            return self.map(lambda m: mat(m.args[0], m.args[0], ite(eqn(ROW, COL), m_body(m), ZERO)), v)
        if n == "operator()" or n == "operator[]" or n in ("coeff", "coeffRef", "x", "y", "z", "w"):
            if n in "xyzw":
                a = [num("xyzw".index(n))]
            return self.elem(o, v, a, e)
        if n == "unaryExpr":
            f = ip.rv(e["args"][0])
            return self.unary_expr(f, v, e)
        if n == "finished":
            return v if v.op == "mat" else (v.args[0] if v.op == "comma" else opaque("finished", v))
        if n == "select":
            x, y = a
            return self.select(v, x, y)
        if n == "cast":
            return v
        if n in ("format",):
            return mk("matfmt", v, *a, sort="o")
        if n == "data":
            return opaque("data", v)
        if n == "solve":
            return self.tri_solve(v, a[0], e)
        if n == "isApprox":
            return mk("opq", "isApprox", v, *a, sort="b")
        return None

    def is_array(self, x):
        """is the (static) type of expression x an Array expression"""
        if not isinstance(x, dict) or "t" not in x:
            return False
        t = TyRef(self.ip.fr.mod, x["t"])
        s = t.s
        return "ArrayWrapper" in s.split("<")[0] or t.q == "Eigen::Array" or (t.q.startswith("Eigen::Cwise") and ("ArrayWrapper" in s or "Eigen::Array<" in s) and not s.startswith("Eigen::MatrixWrapper"))

    def view(self, n, o, e, fn):
        ip = self.ip
        v = ip.val(o)
        if n in ("transpose", "adjoint"):
            if v.op == "dec":
                return self.decT(v)
            if o.op == "ref" and o.args[1] and o.args[1][-1] == ("T",):
                return ref(o.args[0], o.args[1][:-1])
            return self.step(o, ("T",))
        if n in ("noalias", "derived", "const_cast_derived", "conjugate", "real", "nestedExpression"):
            return o
        if n == "eval":
            return v
        if n in ("array", "matrix"):
            return o
        if n == "diagonal":
            if e["args"]:
                return opaque("diag", v)
            return self.step(o, ("diag",))
        if n in ("triangularView", "selfadjointView"):
            mode = int((fn.get("ta") or [{"i": "0"}])[0].get("i", 0))
            if n == "selfadjointView":
                if self.rows(v) is not self.cols(v):
                    self.need("dims", eqn(self.rows(v), self.cols(v)), e)
                return self.step(o, ("sym", "L" if mode & LOWER else "U"))
            return self.step(o, ("tri", mode))
        a = self.args(e)
        ta = [x for x in (fn.get("ta") or []) if "i" in x]
        if v.op == "gite":
            v = ip.simp(v)
        R, C = self.rows(v), self.cols(v)
        vecr = C is ONE

        def par(i):
            if i < len(a):
                return a[i]
            return None
        if n in ("head", "tail", "segment"):
            k = [int(x["i"]) for x in ta if int(x["i"]) >= 0]
            if n == "segment":
                st = a[0]
                ln = a[1] if len(a) > 1 else num(k[0])
            else:
                ln = a[0] if a else num(k[0])
                tot = R if vecr else C
                st = ZERO if n == "head" else sub(tot, ln)
            blk = (st, ZERO, ln, ONE) if vecr else (ZERO, st, ONE, ln)
        elif n == "block":
            k = [int(x["i"]) for x in ta]
            if len(a) == 4:
                blk = tuple(a)
            else:
                blk = (a[0], a[1], num(k[0]), num(k[1]))
        elif n.endswith("Corner"):
            if len(a) == 2:
                nr, nc = a
            else:
                k = [int(x["i"]) for x in ta]
                nr, nc = num(k[0]), num(k[1])
            r0 = ZERO if n.startswith("top") else sub(R, nr)
            c0 = ZERO if "Left" in n else sub(C, nc)
            blk = (r0, c0, nr, nc)
        else:
            k = [num(int(x["i"])) for x in ta if int(x["i"]) >= 0]
            if n in ("topRows", "bottomRows"):
                nr = a[0] if a else k[0]
                blk = (ZERO if n == "topRows" else sub(R, nr), ZERO, nr, C)
            elif n in ("leftCols", "rightCols"):
                nc = a[0] if a else k[0]
                blk = (ZERO, ZERO if n == "leftCols" else sub(C, nc), R, nc)
            elif n == "middleRows":
                blk = (a[0], ZERO, a[1] if len(a) > 1 else k[0], C)
            elif n == "middleCols":
                blk = (ZERO, a[0], R, a[1] if len(a) > 1 else k[0])
            elif n == "row":
                blk = (a[0], ZERO, ONE, C)
            elif n == "col":
                blk = (ZERO, a[0], R, ONE)
            else:
                return opaque("view:" + n, v)
        if any(x.op == "opq" for x in blk):
            return opaque("view:" + n, v, *blk)
        blk = tuple(ip.simp(x) for x in blk)
        self.need_block(v, *blk, e)
        return self.step(o, ("blk",) + blk)

    def elem(self, o, v, a, e):
        ip = self.ip
        if v.op == "gite":
            v = ip.simp(v)
        R, C = self.rows(v), self.cols(v)
        if len(a) == 1:
            i, j = (a[0], ZERO) if C is ONE or R is not ONE else (ZERO, a[0])
        else:
            i, j = a
        if i.op == "opq" or j.op == "opq":
            return opaque("elem", v, i, j)
        for x, d in ((i, R), (j, C)):
            if d is ONE and x is ZERO:
                continue
            self.need("index", geq(x, ZERO), e)
            self.need("index", lt(x, d), e)
        if o.op == "ref":
            return rsub(o, ("el", i, j))
        if o.op == "gite" and _has_ref(o):
            return self.step(o, ("el", i, j))
        return self.map(lambda m: m_at(m, i, j), v)

    def zip(self, f, x, y, e):
        if x.op == "mat" and y.op == "mat":
            self.need_same(x, y, e)
        return self.map(lambda p, q: m_ewise(f, p, q) if p.op == "mat" and q.op == "mat" else
                        m_ewise(lambda z: f(z, q), p) if p.op == "mat" else m_ewise(lambda z: f(p, z), q), x, y)

    def resize(self, o, v, a, n, e):
        ip = self.ip
        if len(a) == 1:
            nr, nc = (a[0], ONE) if self.cols(v) is ONE or v.op == "opq" else (ONE, a[0])
        else:
            nr, nc = a
        t = TyRef(ip.fr.mod, e["obj"]["t"]) if "t" in e["obj"] else None
        self.need("resize", geq(nr, ZERO), e)
        self.need("resize", geq(nc, ZERO), e)
        if v.op == "mat" and v.args[0] is nr and v.args[1] is nc:
            return o
        if n == "conservativeResize":
            ip.store(o, opaque("conservativeResize", v, nr, nc))
            return UNSET
        name = mk("uninit", refname(o), sort="o")
        ip.store(o, sym_mat(name, nr, nc))
        return UNSET

    def set(self, n, o, v, a, e):
        ip = self.ip
        dims = [x for x in a]
        val = ZERO
        if n in ("setConstant", "fill"):
            val = dims.pop()
        elif n == "setOnes":
            val = ONE
        if dims:
            R, C = (dims[0], ONE) if len(dims) == 1 else dims[:2]
        else:
            R, C = self.rows(v), self.cols(v)
        if n == "setIdentity":
            val = ite(eqn(ROW, COL), ONE, ZERO)
        if v.op == "opq" and not dims:
            R, C = mk("rows", v, sort="i"), mk("cols", v, sort="i")
        ip.store(o, mat(R, C, val))
        return o

    def reduce(self, n, v, a, e, fn):
        if n == "norm" or n == "stableNorm":
            return self.map(lambda m: sqrt_(m_sum(m, lambda x: mul(x, x))), v)
        if n == "squaredNorm":
            return self.map(lambda m: m_sum(m, lambda x: mul(x, x)), v)
        if n == "sum":
            return self.map(lambda m: m_sum(m), v)
        if n == "mean":
            return self.map(lambda m: div(m_sum(m), self.size(m)), v)
        if n == "trace":
            return self.map(lambda m: m_sum(self.ip.proj(m, ("diag",))), v)
        if n == "value":
            return self.map(lambda m: m_at(m, ZERO, ZERO), v)
        if n in ("minCoeff", "maxCoeff"):
            if a:
                return opaque(n, v)
            self.need("nonempty", cmp(self.size(v), ">", ZERO), e)
            if n == "maxCoeff":
                return self.map(lambda m: m_max(m), v)
            return self.map(lambda m: neg(m_max(m, neg)), v)
        if n == "lpNorm":
            p = int((fn.get("ta") or [{"i": "2"}])[0].get("i", 2))
            if p == 1:
                return self.map(lambda m: m_sum(m, abs_), v)
            if p == 2:
                return self.map(lambda m: sqrt_(m_sum(m, lambda x: mul(x, x))), v)
            if p == -1:
                return self.map(lambda m: max_(ZERO, m_max(m, abs_)), v)
            return opaque("lpNorm", v)
        if n == "dot":
            self.need_dot(v, a[0], e)
            def dot(x, y):
                if y.args[1] is not ONE and y.args[0] is ONE:
                    y = m_transpose(y)
                if x.args[1] is not ONE and x.args[0] is ONE:
                    x = m_transpose(x)
                return m_sum(m_ewise(mul, x, y))
            return self.map(dot, v, a[0])
        def tb(x):
            return x if x.sort == "b" else cmp(x, "!=", ZERO)
        if n == "all":
            return self.map(lambda m: m_forall(m, tb), v) if v.op != "opq" else mk("opq", "all", v, sort="b")
        if n == "any":
            return self.map(lambda m: not_(m_forall(m, lambda x: not_(tb(x)))), v) if v.op != "opq" else mk("opq", "any", v, sort="b")
        if n == "allFinite":
            return self.map(lambda m: m_forall(m, is_finite), v) if v.op != "opq" else mk("opq", "allFinite", v, sort="b")
        if n == "hasNaN":
            return self.map(lambda m: not_(m_forall(m, lambda x: not_(is_nan(x)))), v) if v.op != "opq" else mk("opq", "hasNaN", v, sort="b")
        if n == "count":
            return self.map(lambda m: m_sum(m_ewise(lambda x: mul_ind(tb(x), ONE), m)), v)
        return opaque(n, v, *a)

    def need_dot(self, v, w, e):
        a, b = self.size(v), self.size(w)
        if a is not b:
            self.need("dims", eqn(a, b), e)

    def select(self, c, x, y):
        def f(m, *r):
            return None
        if c.op != "mat":
            return opaque("select", c, x, y)
        ms = [c] + [z for z in (x, y) if z.op == "mat"]

        def g(cc, *r):
            r = list(r)
            xx = r.pop(0) if x.op == "mat" else x
            yy = r.pop(0) if y.op == "mat" else y
            return ite(cc, xx, yy)
        return self.map(lambda *ms: m_ewise(g, *ms), *ms)

    def unary_expr(self, f, v, e):
        ip = self.ip
        if v.op != "mat" or f.op not in ("lam", "fnptr"):
            return opaque("unaryExpr", f, v)

        def g(x):
            r = ip.root("%s.ue@%s" % (ip.fr.name, ip.site(e)), x)
            return ip.val(ip.apply(f, [r], e))
        return m_ewise(g, v)

    # ------------------------------------------------------------------------------------------ operators
    def operator(self, op, e, fn):
        ip = self.ip
        if e["ck"] == "mem":
            o = self.obj(e)
            v = ip.val(o)
            a = self.args(e)
            if op in ("()", "[]"):
                return self.elem(o, v, a, e)
            return None
        args = e["args"]
        if op in ("()", "[]"):
            o = ip.ev(args[0])
            return self.elem(o, ip.val(o), [ip.rv(x) for x in args[1:]], e)
        if op in ("=", "+=", "-=", "*=", "/="):
            return self.assign(op, e)
        if op == "-" and len(args) == 1:
            return self.neg(ip.rv(args[0]))
        if op == "<<":
            a = ip.ev(args[0])
            x = ip.rv(args[1])
            if a.op == "mat":
                a = ip.root("%s.comma@%s" % (ip.fr.name, ip.site(e)), a)
            if a.op == "ref" and ip.load(a).op == "mat":
                return self.comma(mk("comma", a, ZERO, sort="o"), x)
            return None
        if op == ",":
            return self.comma(ip.rv(args[0]), ip.rv(args[1]))
        x, y = ip.rv(args[0]), ip.rv(args[1])
        arr = self.is_array(args[0]) or self.is_array(args[1])
        return self.binary(op, x, y, arr, e)

    def binary(self, op, x, y, arr, e):
        if x.op == "dec" or y.op == "dec":
            return opaque("dec" + op, x, y)
        if op in ("+", "-"):
            f = add if op == "+" else sub
            return self.zip(f, x, y, e)
        if op == "*":
            if is_scalar(x) or is_scalar(y) or arr:
                return self.zip(mul, x, y, e)
            a, b = self.cols(x), self.rows(y)
            if a is not b:
                self.need("dims", eqn(a, b), e)
            return self.map(m_mul, x, y)
        if op == "/":
            return self.zip(div, x, y, e)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if not arr and op in ("==", "!="):
                if x.op == "mat" and y.op == "mat":
                    r = m_forall(m_ewise(lambda p, q: eqn(p, q), x, y), lambda b: b)
                    return r if op == "==" else not_(r)
                return mk("opq", "mateq", x, y, sort="b")
            return self.zip(lambda p, q: cmp(p, op, q), x, y, e)
        if op in ("&&", "||"):
            return self.zip(and_ if op == "&&" else or_, x, y, e)
        return opaque("eigop" + op, x, y)

    def comma(self, c, x):
        ip = self.ip
        if c.op != "comma":
            return opaque("comma", c, x)
        r, i = c.args
        m = ip.load(r)
        if m.op != "mat" or not is_scalar(x) or not is_num(m.args[1]):
            if m.op == "mat" and x.op == "mat" and m.args[1] is ONE and x.args[1] is ONE:
                ip.store(r, m_write(m, i, ZERO, x.args[0], ONE, x))
                return mk("comma", r, add(i, x.args[0]), sort="o")
            ip.store(r, opaque("comma", m, x))
            return mk("comma", r, add(i, ONE), sort="o")
        nc = int(m.args[1].args[0])
        k = int(i.args[0])
        ip.store(rsub(r, ("el", num(k // nc), num(k % nc))), x)
        return mk("comma", r, add(i, ONE), sort="o")

    def assign(self, op, e):
        ip = self.ip
        a0, a1 = e["args"][0], e["args"][1]
        v = ip.rv(a1)
        r = ip.lv(a0)
        ip.cur_loc = ip.loc(e)
        if op != "=":
            old = ip.load(r)
            arr = self.is_array(a0)
            if op == "*=" and not is_scalar(v) and not arr:
                v = self.binary("*", old, v, False, e)
            else:
                v = self.binary(op[0], old, v, arr, e)
            ip.store(r, v)
            return r
        v = self.fit(v)
        if v.op == "comma":
            v = ip.load(v.args[0])
        steps = [s[0] for s in r.args[1]] if r.op == "ref" else []
        isview = any(s in ("blk", "diag", "tri", "el", "sym") for s in steps)
        old = ip.load(r) if r.op == "ref" and (r.args[1] or r.args[0] in ip.st.mem) else None
        if isview and old is not None and v.op == "mat" and old.op == "mat":
            self.need_same(old, v, e)
        elif old is not None and old.op == "mat" and v.op == "mat":
            t = self.plain(TyRef(ip.fr.mod, a0["t"])) if "t" in a0 else None
            if t is not None and not isview:
                sr, sc = self.dims(t)
                if sr is not None and v.args[0] is not sr or sc is not None and v.args[1] is not sc:
                    self.need_same(old, v, e)
                    v = mat(sr or v.args[0], sc or v.args[1], v.args[2], v.args[3])
        if "t" in a1:
            src = ip.ev  # noqa
        ip.store(r, v)
        if e["fn"] and self.moves(e["fn"], a1):
            pass
        return r

    def moves(self, fn, a):
        return False

    def fit(self, v):
        return v

    def neg(self, x):
        if x.op in ("mat", "gite"):
            return self.map(lambda m: m_ewise(neg, m), x)
        return opaque("neg", x)

    # ------------------------------------------------------------------------------------------ static functions
    def static(self, n, e, fn):
        ip = self.ip
        t = self.plain(TyRef(ip.fr.mod, e["t"])) if "t" in e else None
        a = self.args(e)
        if n in ("Zero", "Ones", "Constant", "Identity", "Random", "LinSpaced"):
            val = {"Zero": ZERO, "Ones": ONE, "Identity": ite(eqn(ROW, COL), ONE, ZERO)}.get(n)
            if n == "Constant":
                val = a.pop()
            if val is None:
                return opaque("Eigen::" + n, *a)
            sr, sc = self.dims(t)
            if len(a) == 2:
                return mat(a[0], a[1], val)
            if len(a) == 1:
                return mat(a[0], sc, val) if sc is not None else mat(sr, a[0], val) if sr is not None else opaque(n, *a)
            if sr is None or sc is None:
                return opaque("Eigen::" + n)
            return mat(sr, sc, val)
        if n.startswith("Unit"):
            sr, sc = self.dims(t)
            if len(a) == 2:
                return mat(a[0], ONE, ite(eqn(ROW, a[1]), ONE, ZERO))
        return None

    # ------------------------------------------------------------------------------------------ constructors
    def ctor(self, t, fn, args, e):
        ip = self.ip
        q = t.q
        if not q.startswith("Eigen::"):
            return None
        if t.kind == "mat":
            if not args:
                return ip.default(t, "%s@%s" % (ip.fr.name, ip.site(e)))
            sr, sc = self.dims(t)
            vals = [ip.rv(x) for x in args]
            if len(vals) == 1:
                v = vals[0]
                if v.op == "comma":
                    return ip.load(v.args[0])
                if is_scalar(v) and v.op != "opq":
                    if sr is not None and sc is not None:
                        if sr is ONE and sc is ONE:
                            return mat(ONE, ONE, v)
                        return ip.default(t, "%s@%s" % (ip.fr.name, ip.site(e)))
                    self.need("resize", geq(v, ZERO), e)
                    nm = mk("uninit", "%s@%s" % (ip.fr.name, ip.site(e)), sort="o")
                    return sym_mat(nm, v if sr is None else sr, (sc if sc is not None else v) if sr is None else v)
                if v.op == "mat" and (sr is not None and v.args[0] is not sr or sc is not None and v.args[1] is not sc):
                    R, C = sr or v.args[0], sc or v.args[1]
                    self.need("dims", and_(eqn(R, v.args[0]), eqn(C, v.args[1])), e)
                    return mat(R, C, v.args[2], v.args[3])
                return v
            if sr is not None and sc is not None:
                m = ip.default(t, "%s@%s" % (ip.fr.name, ip.site(e)))
                for i, v in enumerate(vals):
                    m = m_setat(m, num(i) if sc is ONE else ZERO, ZERO if sc is ONE else num(i), v)
                return m
            if len(vals) == 2 and all(is_scalar(v) for v in vals):
                self.need("resize", geq(vals[0], ZERO), e)
                self.need("resize", geq(vals[1], ZERO), e)
                nm = mk("uninit", "%s@%s" % (ip.fr.name, ip.site(e)), sort="o")
                return sym_mat(nm, sr or vals[0], sc or vals[1])
            return opaque("Matrix", *vals)
        if t.kind in ("view", "expr"):
            if len(args) == 1:
                return ip.ev(args[0])
            return opaque("view:" + q)
        n = q.rsplit("::", 1)[-1]
        if n in ("LDLT", "LLT", "ColPivHouseholderQR", "SelfAdjointEigenSolver", "FullPivLU", "PartialPivLU", "HouseholderQR", "FullPivHouseholderQR"):
            vals = [ip.rv(x) for x in args]
            if not vals or is_scalar(vals[0]):
                return mk("dec0", n, t.s, sort="o")
            lower = True
            if n in ("LDLT", "LLT") and str(t.targ(1)) == "2":
                lower = False
            return self.decompose(n, vals[0], lower, e)
        vals = [ip.rv(x) for x in args]
        return mk("eobj", q, *vals, sort="o")

    # ------------------------------------------------------------------------------------------ factorisations
    def decompose(self, n, m, lower, e):
        ip = self.ip
        if m.op == "gite":
            m = ip.simp(m)
            if m.op == "gite":
                return merge(m.args[0], self.decompose(n, m.args[1], lower, e), self.decompose(n, m.args[2], lower, e))
        if m.op != "mat":
            d = mk("dec", n, m, m, sort="o")
        else:
            if n in ("LDLT", "LLT", "SelfAdjointEigenSolver"):
                if m.args[0] is not m.args[1]:
                    self.need("dims", eqn(m.args[0], m.args[1]), e)
                a = ip.tidy("", m_lower_assumed(m if lower else m_transpose(m)))
                d = mk("dec", n, a, a, sort="o")
            else:
                m = ip.tidy("", m)
                d = mk("dec", n, m, m, sort="o")
        ip.event("decompose", e, dec=d, name=n)
        return d

    def decT(self, v):
        return opaque("decT", v)

    def decomp(self, n, o, v, a, e, fn):
        ip = self.ip
        if v.op == "gite":
            v = ip.simp(v)
        if n in ("llt", "ldlt", "colPivHouseholderQr", "fullPivLu", "partialPivLu"):
            lower = True
            src = v
            if o.op == "ref" and o.args[1] and o.args[1][-1][0] == "sym":
                lower = o.args[1][-1][1] == "L"
                src = ip.load(ref(o.args[0], o.args[1][:-1]))
            return self.decompose({"llt": "LLT", "ldlt": "LDLT", "colPivHouseholderQr": "ColPivHouseholderQR"}.get(n, n), src, lower, e)
        if n == "compute":
            m = ip.rv(e["args"][0])
            kind = v.args[1] if v.op == "dec0" else v.args[0] if v.op == "dec" else "?"
            kind = v.args[0] if v.op in ("dec", "dec0") else "?"
            d = self.decompose(kind, m, True, e)
            ip.store(o, d)
            return o
        if v.op != "dec":
            if v.op == "mat" and n == "solveInPlace":
                r = ip.lv(e["args"][0])
                ip.store(r, self.tri_solve(v, ip.load(r), e))
                return UNSET
            if v.op == "gite":
                x = [self.decomp_pure(n, w, a, e) for w in v.args[1:]]
                if n != "solveInPlace":
                    return merge(v.args[0], *x)
            if n == "solveInPlace":
                r = ip.lv(e["args"][0])
                ip.store(r, opaque("solve", v, ip.load(r)))
                return UNSET
            return opaque("dec:" + n, v)
        if n == "solveInPlace":
            r = ip.lv(e["args"][0])
            x = ip.load(r)
            ip.event("decuse", e, dec=v)
            ip.store(r, self.solve(v, x, e))
            return UNSET
        return self.decomp_pure(n, v, a, e)

    def decomp_pure(self, n, v, a, e):
        ip = self.ip
        if v.op != "dec":
            return opaque("dec:" + n, v)
        kind, m, am = v.args
        key = mk("decof", kind, am, sort="o")
        if n == "info":
            x = mk("info", key, sort="e")
            from .interp import ENUM_OF
            ENUM_OF[x] = ENUM_INFO
            return x
        if n == "rank":
            return mk("rank", key, sort="i")
        R, C = self.rows(m), self.cols(m)
        ip.event("decuse", e, dec=v)
        if n in ("matrixQ", "householderQ"):
            return sym_mat(mk("Q", key, sort="o"), R, R)
        if n in ("matrixR", "matrixQR"):
            return sym_mat(mk("R", key, sort="o"), R, C)
        if n == "colsPermutation":
            return sym_mat(mk("P", key, sort="o"), C, C)
        if n == "eigenvalues":
            return sym_mat(mk("eigvals", key, sort="o"), R, ONE)
        if n == "solve":
            return self.solve(v, a[0], e)
        if n == "isPositive" or n == "isInvertible":
            return bsym(mk(n, key, sort="i"))
        return opaque("dec:" + n, v)

    def inv_mat(self, am, symmetric):
        nm = mk("inv", am, sort="o")
        if symmetric:
            nm = mk("symm", nm, sort="o")
        return sym_mat(nm, self.rows(am), self.rows(am))

    def solve(self, v, x, e):
        kind, m, am = v.args
        if x.op == "mat" and self.rows(x) is not self.rows(m):
            self.need("dims", eqn(self.rows(x), self.rows(m)), e)
        self.ip.event("decuse", e, dec=v)
        if am.op != "mat" or x.op != "mat":
            return opaque("solve", v, x)
        sym = kind in ("LDLT", "LLT")
        if not sym:
            return opaque("solve", v, x)
        return m_mul(self.inv_mat(am, True), x)

    def tri_solve(self, v, x, e):
        """v: (square) matrix value of a triangular view"""
        if v.op != "mat" or x.op != "mat":
            return opaque("solve", v, x)
        if self.rows(x) is not self.rows(v):
            self.need("dims", eqn(self.rows(x), self.rows(v)), e)
        if self.rows(v) is not self.cols(v):
            self.need("dims", eqn(self.cols(v), self.rows(v)), e)
        return m_mul(self.inv_mat(v, False), x)

    def inverse(self, v):
        if v.op != "mat":
            return self.map(self.inverse, v) if v.op == "gite" else opaque("inverse", v)
        R, C = v.args[0], v.args[1]
        if is_num(R) and R is C and R.args[0] <= 3:
            n = int(R.args[0])
            g = [[m_at(v, num(i), num(j)) for j in range(n)] for i in range(n)]
            if n == 1:
                return mat(R, C, inv(g[0][0]))
            if n == 2:
                det = sub(mul(g[0][0], g[1][1]), mul(g[0][1], g[1][0]))
                adj = [[g[1][1], neg(g[0][1])], [neg(g[1][0]), g[0][0]]]
            else:
                def mn(i, j):
                    r = [x for x in range(3) if x != i]
                    c = [x for x in range(3) if x != j]
                    d = sub(mul(g[r[0]][c[0]], g[r[1]][c[1]]), mul(g[r[0]][c[1]], g[r[1]][c[0]]))
                    return d if (i + j) % 2 == 0 else neg(d)
                adj = [[mn(j, i) for j in range(3)] for i in range(3)]
                det = add(*[mul(g[0][j], mn(0, j)) for j in range(3)])
            m = mat(R, C, ZERO)
            for i in range(n):
                for j in range(n):
                    m = m_setat(m, num(i), num(j), div(adj[i][j], det))
            return m
        return self.inv_mat(v, False)

    # ------------------------------------------------------------------------------------------ triangular parts
    def in_tri(self, mode):
        if mode & LOWER:
            return cmp(ROW, ">" if mode & (ZEROD | UNIT) else ">=", COL)
        return cmp(ROW, "<" if mode & (ZEROD | UNIT) else "<=", COL)

    def tri_value(self, v, mode):
        if v.op != "mat":
            return opaque("tri", v)
        t = self.in_tri(mode)
        b = ite(t, m_body(v), ZERO)
        if mode & UNIT:
            b = ite(eqn(ROW, COL), ONE, b)
        return mat(v.args[0], v.args[1], b)

    def tri_store(self, old, mode, new):
        if old.op != "mat" or new.op != "mat":
            return opaque("tristore", old, new)
        return mat(old.args[0], old.args[1], ite(self.in_tri(mode), m_body(new), m_body(old)))


def _has_ref(v):
    if v.op == "ref":
        return True
    if v.op == "gite":
        return _has_ref(v.args[1]) and _has_ref(v.args[2])
    return False


def merge_refs(c, a, b):
    if a is b:
        return a
    if _has_ref(a) and _has_ref(b):
        return gite(c, a, b)
    return merge(c, a, b)


def refname(r):
    if r.op != "ref":
        return "?"
    return r.args[0] + "".join("." + p[1] if p[0] == "f" else "[%s]" % p[0] for p in r.args[1])


def is_finite(x):
    return bsym(mk("isfinite", x, sort="i")) if not is_num(x) else TRUE


def is_nan(x):
    return bsym(mk("isnan", x, sort="i")) if not is_num(x) else FALSE
