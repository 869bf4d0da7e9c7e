"""Independent specification of the quadratic-program solvers, written over the value graph."""
from .harness import *

SOLVER = "mini_opt::QPInteriorPointSolver"


class QPData:
    """the symbolic problem: accessors used by the specifications"""
    def __init__(self, s, name="qp", M=None):
        self.ref, self.N, self.K, self.M = valid_qp(s, name, M=M)
        self.s = s
        v = fields(s.st.mem[name])
        self.G, self.c, self.A, self.b, self.cons = (v[x] for x in ("G", "c", "A_eq", "b_eq", "constraints"))

    def con(self, i):
        return fields_of(lat(self.cons, i, self.s.build))

    def a(self, i):
        return self.con(i)["a"]

    def bb(self, i):
        return self.con(i)["b"]

    def var(self, i):
        return self.con(i)["variable"]

    def Gs(self, i, j):
        """the Hessian as a symmetric matrix given by its lower triangle"""
        return m_at(m_symm_lower(self.G), i, j)


def fields_of(v):
    if v.op == "rec":
        return dict(zip(v.args[1], v.args[2:]))
    raise ValueError("not a record: " + v.op)


def S(n, f):
    k = iv(fresh("q"))
    return mk_sum([(k, n)], f(k))


def vec(n, f):
    return mat(n, ONE, f(ROW))


def matf(r, c, f):
    return mat(r, c, f(ROW, COL))


def block(v, off, n):
    return m_read(v, off, ZERO, n, ONE)


def blocks(q, v):
    """x, s, y, z blocks of a stacked vector"""
    N, M, K = q.N, q.M, q.K
    return (block(v, ZERO, N), block(v, N, M), block(v, add(N, M), K), block(v, add(N, M, K), M))


def ind(c):
    return ite(c, ONE, ZERO)


def kkt(q, x, s, y, z, ineq=True):
    """the four residual blocks at (x,s,y,z)"""
    rd = vec(q.N, lambda i: add(S(q.N, lambda j: mul(q.Gs(i, j), m_at(x, j))), m_at(q.c, i),
                                neg(S(q.K, lambda k: mul(m_at(q.A, k, i), m_at(y, k)))),
                                neg(S(q.M, lambda m: mulall(q.a(m), m_at(z, m), ind(eqn(q.var(m), i))))) if ineq else ZERO))
    rc = vec(q.M, lambda i: mul(m_at(s, i), m_at(z, i)))
    re = vec(q.K, lambda k: add(S(q.N, lambda j: mul(m_at(q.A, k, j), m_at(x, j))), m_at(q.b, k)))
    ri = vec(q.M, lambda i: add(mul(q.a(i), m_at(x, q.var(i))), q.bb(i), neg(m_at(s, i))))
    return rd, rc, re, ri


def norm2(v):
    return S(v.args[0], lambda i: powi(m_at(v, i), 2))
