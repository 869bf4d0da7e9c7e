"""Rules for argument checking, factorisation status, purity and the null-space solver (Q01, Q02, Q11..Q16)."""
from .qp import *
from .qp import qprun
from .. import loops as _loops

NSOLVER = "mini_opt::QPNullSpaceSolver"
LIBERR = "assert::default_error"


class Entry:
    """one interpretation of a function from a symbolic state"""
    def __init__(self, ctx, f, this=None, args=(), setup=None, models=None, opts=None):
        self.ctx = ctx
        P = ctx.prog()
        s = self.s = Session(P, models, opts)
        self.f = P.fn(f) if isinstance(f, str) else f
        s.begin(self.f["_m"])
        self.obj = {}
        if setup:
            setup(self)
        self.mem0 = dict(s.st.mem)
        a = args(self) if callable(args) else list(args)
        t = this(self) if callable(this) else this
        self.dead = False
        self.ret = None
        try:
            self.ret = s.invoke(self.f, a, t, None)
        except Dead:
            self.dead = True
        self.returns = list(s.top_returns) if not self.dead else []
        self.events = s.events
        ctx.session(s)

    def pc(self):
        return FALSE if self.dead else pc_cond(self.s.st.pc)

    def throws(self):
        return [e for e in self.events if e.kind == "throw"]


def check_throws(ctx, E, rule, types=(LIBERR,)):
    """every exception raised by the library on the analysed paths has one of the given types"""
    for e in E.throws():
        ctx.expect(e.data.get("type") in types, rule, "exception type", e.loc, "raises %s" % e.data.get("type"))


def loc_of(f):
    return f["q"]


def well_formed(ctx, E, qp, rule, pc):
    """conditions every accepted problem satisfies"""
    v = fields(E.s.st.mem["qp"]) if qp is None else qp
    G, c, A, b = v["G"], v["c"], v["A_eq"], v["b_eq"]
    N = m_rows(G)
    return v, G, c, A, b, N


def q01(ctx):
    accepted(ctx, True)


def accepted(ctx, refusals=False):
    """what is known of a problem that was not refused (and, on request, that nothing else is refused)"""

    def sym_qp(E):
        E.qp = E.s.sym_object("mini_opt::QP", "qp")

    def setup(E):
        sym_qp(E)
        E.solver = E.s.sym_object(SOLVER, "solver")
    for nm, fn, this, args in (("Setup", SOLVER + "::Setup", lambda E: E.solver, lambda E: [ptr(E.qp)]),
                               ("constructor", "mo_witness::make_solver", None, lambda E: [ptr(E.qp)])):
        E = Entry(ctx, fn, this, args, setup)
        v = fields(E.mem0["qp"])
        G, c, A, b, cons = v["G"], v["c"], v["A_eq"], v["b_eq"], v["constraints"]
        N, K = m_rows(G), m_rows(A)
        M = list_len(E.s, cons)
        j = iv(fresh("m"))
        var = fields_of(lat(cons, j, E.s.build))["variable"]
        pc = E.pc()
        loc = loc_of(E.f)
        for what, want in (("the Hessian is square", eqn(N, m_cols(G))), ("the linear term has one entry per variable", eqn(N, m_rows(c))),
                           ("A_eq and b_eq have equally many rows", eqn(K, m_rows(b))),
                           ("a non-empty A_eq has one column per variable", or_(eqn(K, ZERO), eqn(m_cols(A), N))),
                           ("inequality indices are not negative", mk_forall(j, M, geq(var, ZERO))),
                           ("inequality indices are below N", mk_forall(j, M, lt(var, N)))):
            ctx.imp("accepted problem", "%s: %s" % (nm, what), pc, want, loc)
        if not refusals:
            continue
        check_throws(ctx, E, "refusal of " + nm)
        E = Entry(ctx, fn, this, lambda E: [NULL], setup)
        ctx.expect(E.dead or E.pc() is FALSE, "null problem", nm + " never returns", loc_of(E.f), "returns normally for a null problem")
        check_throws(ctx, E, "refusal of " + nm)
    E = Entry(ctx, NSOLVER + "::Solve", lambda E: E.s.sym_object(NSOLVER, "ns"), lambda E: [E.qp], sym_qp)
    v = fields(E.mem0["qp"])
    G, c, A, b = v["G"], v["c"], v["A_eq"], v["b_eq"]
    for what, want in (("there is an equality row", geq(m_rows(A), ONE)), ("A_eq and b_eq have equally many rows", eqn(m_rows(A), m_rows(b))),
                       ("the Hessian has one row per column of A_eq", eqn(m_rows(G), m_cols(A))), ("the Hessian has one column per column of A_eq", eqn(m_cols(G), m_cols(A))),
                       ("the linear term has one entry per column of A_eq", eqn(m_rows(c), m_cols(A)))):
        ctx.imp("accepted problem", "null space: " + what, E.pc(), want, loc_of(E.f))
    if not refusals:
        return
    check_throws(ctx, E, "refusal of the null-space solver")
    # nothing of the problem is used before it is accepted
    for e in E.events:
        if e.kind == "decompose":
            for what, want in (("there is an equality row", geq(m_rows(A), ONE)),):
                ctx.imp("accepted problem", "null space, before the factorisation: " + what, e.cond(), want, e.loc)
            break


def list_len(s, v):
    return lsize(v)


def q02(ctx):
    def setup(E):
        E.solver = E.s.sym_object(SOLVER, "solver")
        E.q = QPData(E.s)
        E.s.run(SOLVER + "::Setup", E.solver, [ptr(E.q.ref)])
        E.params = E.s.sym_object(SOLVER + "::Params", "params")
        E.pc0 = pc_cond(E.s.st.pc)
        E.nev = len(E.s.events)
    E = Entry(ctx, SOLVER + "::Solve", lambda E: E.solver, lambda E: [E.params], setup)
    pf = fields(E.mem0["params"])
    ranges = [("the initial barrier is positive", gt(pf["initial_mu"], ZERO)), ("the reduction factor is positive", gt(pf["sigma"], ZERO)),
              ("the reduction factor is at most one", leq(pf["sigma"], ONE)), ("the KKT tolerance is positive", gt(pf["termination_kkt_tol"], ZERO)),
              ("the iteration limit is positive", geq(pf["max_iterations"], ONE))]
    loc = loc_of(E.f)
    for what, want in ranges:
        ctx.imp("accepted parameters", what, E.pc(), want, loc)
    allr = and_(*[w for _, w in ranges])
    names = set(pf)
    stale = fields(E.mem0["solver"])
    for e in E.events[E.nev:]:
        if e.kind == "throw":
            mine = [m for m in pf.values() if contains(e.cond(), m)] if False else None
            bad = and_(e.cond(), not_(allr))
            if bad is FALSE:
                continue
            if e.ctx or implies(e.cond(), allr)[0] is True:
                # raised for another reason, after the parameters were accepted
                ctx.ok("refusal", "raised only with parameters in range", e.loc)
                continue
            ctx.expect(e.data.get("type") == LIBERR, "refusal", "exception type", e.loc, "raises %s" % e.data.get("type"))
            mem = e.data.get("mem")
            if mem is not None:
                ctx.expect(mem.get("solver") is E.mem0["solver"], "refusal", "no solver state is modified before the parameters are refused", e.loc,
                           "modified: " + ", ".join(n for n, x in fields(mem["solver"]).items() if x is not stale.get(n)))
    # inside the ranges nothing is refused for its parameters: exceptions that depend on parameters only are raised outside the ranges
    dom = E.s.p.enums.get("mini_opt::InitialGuessMethod")
    guess = pf.get("initial_guess_method")
    gm = or_(*[fin_eq(guess, (int(x["v"]),), tuple(int(y["v"]) for y in dom["e"])) for x in dom["e"]])
    for e in E.events[E.nev:]:
        if e.kind == "throw" and e.data.get("type") == LIBERR and not e.ctx:
            c = and_(e.cond(), allr, gm)
            own = [l for l in conjuncts(c)]
            ps = set(atoms_of(e.cond(), lambda n: n.op in ("fld", "in") and n in set(pf.values())))
            if not ps:
                continue
            # part of the condition that is not about the problem
            only = all(not atoms_of(l, lambda n: n.op in ("el", "info", "at", "forall", "named", "nscal")) for l in conjuncts(e.cond()))
            if only:
                ctx.eq("acceptance", "parameters in range are accepted", c, FALSE, e.loc)


def q11(ctx):
    r = qprun(ctx)
    status(ctx, r.s, r.events, "interior point", "mini_opt::FailedFactorization")
    E = nullrun(ctx)
    status(ctx, E.s, E.events, "null space", None)
    fin = [(pc, v, mem) for pc, v, mem in E.returns]
    vname = solution_field(E)
    okv = enum_val(E.s.p, "mini_opt::QPNullSpaceTerminationState", "SUCCESS")
    badv = enum_val(E.s.p, "mini_opt::QPNullSpaceTerminationState", "NOT_POSITIVE_DEFINITE")
    decs = [e.data["dec"] for e in E.events if e.kind == "decompose" and e.data["dec"].op == "dec" and e.data["dec"].args[0] in ("LLT", "LDLT")]
    if len(set(decs)) != 1:
        ctx.unk("null space", "one Cholesky factorisation", loc_of(E.f), "%d found" % len(decs))
        return
    good = success(decs[0])
    sol0 = fields(E.mem0["ns"])[vname]
    for pc, v, mem in fin:
        c = pc_cond(pc)
        for l, val in ((True, okv), (False, badv)):
            is_v = fin_eq(v, (val,), (0, 1))
            if and_(c, is_v) is FALSE:
                continue
            ctx.imp("null space status", "SUCCESS only after a successful factorisation" if l else "NOT_POSITIVE_DEFINITE only after a failed one", and_(c, is_v), good if l else not_(good), loc_of(E.f))
            if not l:
                ctx.eq("null space status", "no new solution is published on failure", fields(mem["ns"])[vname], sol0, loc_of(E.f), and_(c, is_v))
    from . import nls
    nls.q11_nls(ctx)


def success(dec):
    key = mk("decof", dec.args[0], dec.args[2], sort="o")
    x = mk("info", key, sort="e")
    return fin_eq(x, (0,), (0, 1, 2, 3))


def status(ctx, s, events, nm, exc):
    n = 0
    for e in events:
        if e.kind != "decuse":
            continue
        d = e.data["dec"]
        if d.op != "dec" or d.args[0] not in ("LDLT", "LLT"):
            continue
        n += 1
        c = e.cond()
        if implies(c, success(d))[0] is True:
            ctx.ok("status before use", "%s: factor used only after its status was tested" % nm, e.loc)
        else:
            ctx.imp("status before use", "%s: factor used only after its status was tested" % nm, c, success(d), e.loc)
    if exc:
        for e in events:
            if e.kind != "throw":
                continue
            for d in {x.data["dec"] for x in events if x.kind == "decompose" and x.data["dec"].op == "dec" and x.data["dec"].args[0] in ("LDLT", "LLT")}:
                if implies(e.cond(), not_(success(d)))[0] is True:
                    ctx.expect(e.data.get("type") == exc, "failure report", "%s: a failed factorisation raises %s" % (nm, exc), e.loc, "raises %s" % e.data.get("type"))
    if n == 0:
        ctx.unk("status before use", "%s: uses of factorisations" % nm, "", "none found")


# ------------------------------------------------------------------------------------------------ null space
def nullrun(ctx):
    if "null" not in ctx.cache:
        def setup(E):
            E.q = QPData(E.s)
            E.ns = E.s.sym_object(NSOLVER, "ns")
        ctx.cache["null"] = Entry(ctx, NSOLVER + "::Solve", lambda E: E.ns, lambda E: [E.q.ref], setup)
    return ctx.cache["null"]


def solution_field(E):
    """the member returned by variables()"""
    P = E.ctx.prog()
    f = P.fn(NSOLVER + "::variables")
    s2 = Session(P)
    s2.begin(f["_m"])
    o = s2.sym_object(NSOLVER, "ns")
    v = s2.invoke(f, [], o, None)
    if v.op == "ref" and v.args[1]:
        x = v.args[1][-1]
        return x if isinstance(x, str) else x[1]
    val = s2.load(v) if v.op == "ref" else v
    for n, x in fields(s2.st.mem["ns"]).items():
        if x is val:
            return n
    raise Undecided("solution member of the null-space solver")


def q12(ctx):
    E = nullrun(ctx)
    q, s = E.q, E.s
    loc = loc_of(E.f)
    qr = [e.data["dec"] for e in E.events if e.kind == "decompose" and e.data["dec"].op == "dec" and e.data["dec"].args[0] == "ColPivHouseholderQR"]
    ch = [e.data["dec"] for e in E.events if e.kind == "decompose" and e.data["dec"].op == "dec" and e.data["dec"].args[0] in ("LLT", "LDLT")]
    if len(set(qr)) != 1 or len(set(ch)) != 1:
        raise Undecided("factorisations of the null-space solver (%d QR, %d Cholesky)" % (len(qr), len(ch)))
    qr, ch = qr[0], ch[0]
    N, K = q.N, q.K
    hasK = geq(K, ONE)
    ctx.eq("factorisation", "the transposed equality block is factorised", m_body(qr.args[2]), m_at(q.A, COL, ROW), loc, and_(lt(ROW, N), lt(COL, K)))
    ctx.expect(qr.args[2].args[0] is N and qr.args[2].args[1] is K, "factorisation", "size N x K", loc, "%s x %s" % (brief(qr.args[2].args[0], 40), brief(qr.args[2].args[1], 40)))
    key = mk("decof", qr.args[0], qr.args[2], sort="o")
    rank = mk("rank", key, sort="i")
    Q = sym_mat(mk("Q", key, sort="o"), N, N)
    R = sym_mat(mk("R", key, sort="o"), N, K)
    Pm = sym_mat(mk("P", key, sort="o"), K, K)
    Z = sub(N, rank)
    Q1 = m_read(Q, ZERO, ZERO, N, rank)
    Q2 = m_read(Q, ZERO, rank, N, Z)
    G = m_symm_lower(q.G)
    Gr = m_mul(m_mul(m_transpose(Q2), G), Q2)
    am = ch.args[2]
    ctx.expect(am.args[0] is Z and am.args[1] is Z, "reduced Hessian", "size N - rank", loc, "%s x %s" % (brief(am.args[0], 80), brief(am.args[1], 80)))
    ctx.eq("reduced Hessian", "Q2^T G Q2, lower triangle", m_body(am), m_body(Gr), loc, geq(ROW, COL))
    # particular solution: R11^T w = (P^T (-b)).head(rank), u = Q1 w
    R11 = m_read(R, ZERO, ZERO, rank, rank)
    L = matf(rank, rank, lambda i, j: mul_ind(geq(i, j), m_at(R11, j, i)))
    Li = s.eig.inv_mat(L, False)
    rhs = m_read(m_mul(m_transpose(Pm), m_ewise(neg, q.b)), ZERO, ZERO, rank, ONE)
    u = m_mul(Q1, m_mul(Li, rhs))
    Gi = s.eig.inv_mat(am, True)
    g = m_ewise(add, q.c, m_mul(G, u))
    y = m_mul(Gi, m_ewise(neg, m_mul(m_transpose(Q2), g)))
    x = m_ewise(add, u, m_mul(Q2, y))
    vn = solution_field(E)
    okv = enum_val(s.p, "mini_opt::QPNullSpaceTerminationState", "SUCCESS")
    n = 0
    for pc, v, mem in E.returns:
        c = and_(pc_cond(pc), fin_eq(v, (okv,), (0, 1)))
        if c is FALSE:
            continue
        n += 1
        got = fields(mem["ns"])[vn]
        ctx.eq("solution", "x = u + Q2 y", m_body(got), m_body(x), loc, and_(c, lt(ROW, N)))
        ctx.expect(got.op == "mat" and got.args[0] is N, "solution", "one entry per variable", loc, brief(got.args[0], 60))
    ctx.expect(n > 0, "solution", "a successful exit exists", loc, "no path returns SUCCESS")


# ------------------------------------------------------------------------------------------------ dependence of results
class Reach:
    """everything a set of values depends on: through named definitions, loop-carried values and factorised matrices.
    `fact` is what is known about the index variables where a value is read; unreachable reads are not visited."""
    LIMIT = 60000

    def __init__(self, s, visit, phis=None, under=TRUE):
        self.s, self.visit, self.phis, self.under = s, visit, phis or {}, under
        self.bodies = {}
        self.visited = {}
        self.parent = {}
        self.cur = None
        self.count = 0
        self.st = []
        self.opened = {}

    def push(self, a, fact):
        if isinstance(a, Node):
            fact = self.about(fact, a.ivs)
            if fact is not FALSE:
                self.st.append((a, fact, self.cur))
        elif isinstance(a, (tuple, list)):
            for x in a:
                self.push(x, fact)

    def about(self, fact, ivs):
        """the part of fact that speaks about the given index variables"""
        if fact is TRUE or fact is FALSE:
            return fact
        if not ivs:
            return TRUE
        keep = [l for l in conjuncts(fact) if l.ivs & ivs]
        return and_(*keep) if keep else TRUE

    def known(self, n, fact):
        """n was visited under weaker (or equal) knowledge"""
        fs = self.visited.setdefault(n, [])
        new = frozenset(conjuncts(fact)) if fact is not TRUE else frozenset()
        for f in fs:
            if f <= new:
                return True
        fs.append(new)
        self.count += 1
        return False

    def collect(self, *vs):
        """visit vs (what was visited before is not visited again); returns the unmodelled values found"""
        n0 = set(self.visited)
        for v in vs:
            self.cur = None
            self.go(v)
        return [n for n in self.visited if n not in n0 and n.op == "opq"]

    def chain(self, n):
        out = []
        while n is not None and n not in out:
            out.append(n)
            n = self.parent.get(n)
        return out

    @staticmethod
    def both(fact, c):
        """fact and the part of c that speaks about index variables"""
        keep = [l for l in conjuncts(c) if l.ivs]
        if not keep:
            return fact
        r = and_(fact, *keep)
        if r is not FALSE and r is not fact and equal(r, FALSE, TRUE, 3)[0] is True:
            return FALSE
        return r

    def body(self, n):
        if n not in self.bodies:
            b = named_body(n)
            self.bodies[n] = b if self.under is TRUE else _assume_val(b, self.under)
        return self.bodies[n]

    def at(self, i, j, fact):
        """knowledge about (ROW, COL) when an element is read at (i, j) under `fact`"""
        if i is ROW and j is COL:
            return fact
        mp, extra = {}, []
        r2, c2 = iv("#r'"), iv("#c'")
        for x, v2 in ((i, r2), (j, c2)):
            vs = [a for a in x.ivs if a not in mp]
            done = False
            for v in vs:
                d = sub(x, v)
                if v not in d.ivs and not d.ivs:
                    mp[v] = sub(v2, d)
                    done = True
                    break
            if not done:
                extra.append(eqn(v2, x))
        f = fact
        if f is not TRUE:
            f = subst(f, mp)
        if extra:
            f = and_(f, *[subst(e, mp) for e in extra])
        keep = [l for l in conjuncts(f) if l.ivs & {r2, c2}]
        f = and_(*keep) if keep else TRUE
        return subst(f, {r2: ROW, c2: COL})

    def open(self, n):
        if n not in self.opened:
            if n.op == "sum":
                vs, body = open_sum(n)
                self.opened[n] = (and_(*[and_(geq(v, ZERO), lt(v, d)) for v, d in vs]), [body], [d for _, d in vs])
            elif n.op == "forall":
                v, d, b = open_forall(n)
                self.opened[n] = (and_(geq(v, ZERO), lt(v, d)), [b], [d])
            else:
                d, c, x, lv = n.args
                v = iv(fresh("q"))
                c, x = replace_bv(c, lv, v), replace_bv(x, lv, v)
                self.opened[n] = (and_(geq(v, ZERO), lt(v, d), c), [c, x], [d])
        return self.opened[n]

    def go(self, n, fact=TRUE):
        self.push(n, fact)
        while self.st:
            n, fact, par = self.st.pop()
            if fact is FALSE or self.known(n, fact):
                continue
            if self.count > self.LIMIT:
                raise Undecided("dependence closure too large")
            self.cur = n
            self.parent.setdefault(n, par)
            if self.visit(n, fact):
                continue
            op = n.op
            if op == "el":
                nm, i, j = n.args[:3]
                self.push(i, fact)
                self.push(j, fact)
                if nm.op == "named":
                    self.push(self.body(nm), self.at(i, j, fact))
                elif nm.op in ("symm", "inv", "Q", "R", "P", "eigvals"):
                    x = nm.args[0] if nm.op == "symm" and nm.args[0].op == "inv" else nm
                    if x.op == "inv":
                        self.matrix(x.args[0], nm.op == "symm")
                    elif x.op != "symm" and x.args[0].op == "decof":
                        self.matrix(x.args[0].args[1], x.args[0].args[0] in SELFADJOINT)
                elif nm.op == "phi":
                    f = self.at(i, j, fact)
                    for v in self.phis.get(nm, ()):
                        self.push(m_at(v, ROW, COL) if v.op == "mat" else v, f)
            elif op == "poly":
                groups = {}
                for mono, c in n.args:
                    rest = tuple(t for t in mono if t[0].op != "ind")
                    ind = [a for a, e in mono if a.op == "ind"]
                    groups.setdefault(rest, []).append(mulall(num(c), *ind))
                gone = set()
                for rest, cs in groups.items():
                    if rest and (len(cs) > 1 or fact is not TRUE) and equal(add(*cs), ZERO, fact, 8)[0] is True:
                        gone.add(rest)      # cancels wherever it is read
                for mono, c in n.args:
                    if gone and tuple(t for t in mono if t[0].op != "ind") in gone:
                        continue
                    f = fact
                    for a, e in mono:
                        if a.op == "ind":
                            f = self.both(f, a.args[0])
                    if f is FALSE:
                        continue
                    for a, e in mono:
                        if a.op == "ind":
                            self.push(a.args[0], fact)
                        else:
                            self.push(a, f)
            elif op in ("sum", "forall", "maxfold"):
                rng, bodies, doms = self.open(n)
                f = self.both(fact, rng)
                for d in doms:
                    self.push(d, fact)
                for b in bodies:
                    self.push(b, f)
            elif op == "phi":
                for v in self.phis.get(n, ()):
                    self.push(v, TRUE)
            elif op in ("nscal", "named"):
                self.push(self.body(n), TRUE)
            elif op == "decof":
                self.matrix(n.args[1], n.args[0] in SELFADJOINT)
            elif op == "mat":
                self.matrix(n, False)
            else:
                for a in n.args:
                    self.push(a, fact)

    def matrix(self, m, lower):
        if m.op != "mat":
            self.push(m, TRUE)
            return
        R, C, base, ov = m.args
        self.push(R, TRUE)
        self.push(C, TRUE)
        inside = and_(geq(ROW, ZERO), lt(ROW, R), geq(COL, ZERO), lt(COL, C))
        if lower:
            inside = and_(inside, geq(ROW, COL))
        rest = inside
        for (r0, c0, nr, nc, b) in ov:
            for x in (r0, c0, nr, nc):
                self.push(x, TRUE)
            f = and_(geq(ROW, ZERO), lt(ROW, nr), geq(COL, ZERO), lt(COL, nc))
            if lower:
                f = and_(f, geq(add(ROW, r0), add(COL, c0)))
            self.push(b, f)
            rest = and_(rest, not_(and_(geq(ROW, r0), lt(ROW, add(r0, nr)), geq(COL, c0), lt(COL, add(c0, nc)))))
        if ov and (rest is FALSE or equal(rest, FALSE)[0] is True):
            return
        self.push(base, rest)


SELFADJOINT = ("LDLT", "LLT", "SelfAdjointEigenSolver")


def phi_values(s):
    """value nodes a loop-carried symbol may take: its entry value and the value at the end of an iteration"""
    out = {}
    for L in s.loops:
        for n, ph in L.phis.items():
            if ph.sym is None or ph.closed is not None:
                continue
            vals = [ph.entry]
            if L.back is not None:
                try:
                    vals.append(_loops.get_path(L.back.mem[ph.key[0]], ph.key[1], s))
                except (KeyError, IndexError):
                    pass
            for a in atoms_of(ph.sym, lambda x: x.op == "phi") if ph.sym.op != "phi" else [ph.sym]:
                out.setdefault(a, []).extend(vals)
    return out


def outputs(r):
    """what a caller of the interior-point solver can observe, with the conditions of observing it"""
    out = []
    for pc, v, mem in r.returns:
        out.append(("returned outputs", v, pc_cond(pc)))
        out.append(("variables", fields(mem["solver"])["variables_"], pc_cond(pc)))
    for e in r.events:
        if e.kind == "throw":
            out.append(("exception at " + e.loc, e.cond(), TRUE))
    return out


def q13(ctx):
    r = qprun(ctx)
    lower_only(ctx, r.s, outputs(r), r.q.G, "interior point")
    E = nullrun(ctx)
    vn = solution_field(E)
    outs = []
    for pc, v, mem in E.returns:
        outs += [("status", v, pc_cond(pc)), ("solution", fields(mem["ns"])[vn], pc_cond(pc))]
    lower_only(ctx, E.s, outs, E.q.G, "null space")
    # eigenvalue summary
    f = ctx.prog().fn("mini_opt::QP::ComputeEigenvalueStats")
    E = Entry(ctx, f, lambda E: E.q.ref, (), lambda E: setattr(E, "q", QPData(E.s)))
    lower_only(ctx, E.s, [("summary", E.ret, E.pc())], E.q.G, "eigenvalue summary")
    q13_residual(ctx)
    q13_penalty(ctx)


def q13_residual(ctx):
    from . import res
    res.q13_residual(ctx)


def q13_penalty(ctx):
    from . import nls
    nls.q13_penalty(ctx)


def lower_only(ctx, s, outs, G, nm):
    gname = G.args[2].args[0]
    phis = phi_values(s)
    bad = []

    def visit(n, fact):
        if n.op == "el" and n.args[0] is gname:
            i, j = n.args[1], n.args[2]
            if i is j or ge0(sub(i, j)):
                return True
            if fact is not TRUE and implies(fact, geq(i, j))[0] is True:
                return True
            bad.append(n)
        return False
    R = Reach(s, visit, phis)
    for what, v, c in outs:
        del bad[:]
        opq = R.collect(v, c)
        if bad:
            ctx.bad("lower triangle", "%s: %s" % (nm, what), "", "depends on the element %s of the Hessian, which may lie above the diagonal" % brief(bad[0], 120))
        elif opq:
            ctx.unk("lower triangle", "%s: %s" % (nm, what), "", "value not modelled: " + brief(opq[0], 160))
        else:
            ctx.ok("lower triangle", "%s: %s" % (nm, what))


def q14(ctx):
    r = qprun(ctx)
    init = r.s_mem_qp
    for nm, mem in [("after Setup", r.after_setup)] + [("exit %d of Solve" % i, m) for i, (_, _, m) in enumerate(r.returns)] + [("end of an iteration", r.back), ("start of an iteration", r.head)]:
        unchanged(ctx, "interior point, " + nm, init, mem["qp"], r.loc)
    E = nullrun(ctx)
    for i, (pc, v, mem) in enumerate(E.returns):
        unchanged(ctx, "null space, exit %d" % i, E.mem0["qp"], mem["qp"], loc_of(E.f))
    q14_nls(ctx)


def q14_nls(ctx):
    from . import nls
    nls.q14_nls(ctx)


def unchanged(ctx, nm, a, b, loc):
    if a is b:
        ctx.ok("problem unchanged", nm, loc)
        return
    fa, fb = fields(a), fields(b)
    for n in fa:
        if fa[n] is not fb.get(n):
            if fb[n].opq:
                ctx.unk("problem unchanged", "%s: %s" % (nm, n), loc)
            else:
                ctx.eq("problem unchanged", "%s: %s" % (nm, n), fb[n], fa[n], loc)


def q15(ctx):
    r = qprun(ctx)
    notuser = not_(r.method("USER_PROVIDED"))
    stale(ctx, r.s, outputs(r), "solver", "interior point", notuser)
    # with a user-provided guess only the variables may come from before
    stale(ctx, r.s, outputs(r), "solver", "interior point with a user-provided guess", r.method("USER_PROVIDED"), allow=("variables_",))
    E = nullrun(ctx)
    vn = solution_field(E)
    outs = []
    okv = enum_val(E.s.p, "mini_opt::QPNullSpaceTerminationState", "SUCCESS")
    for pc, v, mem in E.returns:
        outs.append(("status", v, pc_cond(pc)))
        if v.op == "enum" and v.args[1] == okv:
            outs.append(("solution", fields(mem["ns"])[vn], pc_cond(pc)))
    stale(ctx, E.s, outs, "ns", "null space", TRUE)
    q15_nls(ctx)


def q15_nls(ctx):
    from . import nls
    nls.q15_nls(ctx)


def stale(ctx, s, outs, root, nm, under, allow=()):
    """outputs must not depend on what the object's members held before the call"""
    base = mk("in", root, sort="o")
    phis = {k: [assume_bool(x, under, True) if under is not TRUE and x.op not in ("mat",) else _assume_val(x, under) for x in v] for k, v in phi_values(s).items()}
    allowed = set()
    bad = []

    def user_given(x):
        # the vector sized by Setup, to be filled in by the caller before Solve
        return any(str(x.args[0]).endswith(root + "." + a) for a in allow)

    def visit(n, fact):
        if n.op == "fld" and n.args[0] is base:
            if n.args[1] not in allow:
                bad.append(n)
            return True
        if n.op == "uninit":
            if not user_given(n):
                bad.append(n)
            return True
        if n.op == "el" and n.args[0].op in ("fld", "uninit"):
            x = n.args[0]
            if not user_given(x) if x.op == "uninit" else (x.args[0] is base and x.args[1] not in allow):
                bad.append(x)
            return x.op == "uninit" or x.args[0] is base
        return False
    R = Reach(s, visit, phis, under)
    for what, v, c in outs:
        if under is not TRUE:
            if and_(c, under) is FALSE:
                continue
            v = _assume_val(v, under)
            c = assume_bool(c, under, True)
        del bad[:]
        opq = R.collect(v, c)
        if bad:
            ctx.bad("fresh state", "%s: %s" % (nm, what), "", "depends on %s from before the call" % brief(bad[0], 120))
        elif opq:
            ctx.unk("fresh state", "%s: %s" % (nm, what), "", "value not modelled: " + brief(opq[0], 160))
        else:
            ctx.ok("fresh state", "%s: %s" % (nm, what))


def _assume_val(v, under):
    f = {k: x for k, x in facts_of(under).items()}
    return assume_lits(v, f) if f else v


# ------------------------------------------------------------------------------------------------ inequality helpers
LIC = "mini_opt::LinearInequalityConstraint"


def q16(ctx):
    P = ctx.prog()

    def mk_c(E):
        E.c = E.s.sym_object(LIC, "con")
        E.cf = fields(E.s.st.mem["con"])

    def run(name, args, n=1, pred=None):
        f = P.fn(LIC + "::" + name, n, pred)
        return Entry(ctx, f, lambda E: E.c, args, mk_c)
    x = mk("in", "x", sort="r")
    E = run("IsFeasible", [x])
    a, b = E.cf["a"], E.cf["b"]
    ctx.eq("feasibility", "a*x + b >= 0", ite(rb_of(E.ret), ONE, ZERO), ite(geq(add(mul(a, x), b), ZERO), ONE, ZERO), loc_of(E.f))
    E = run("ClampX", [x])
    ctx.imp("clamping", "a zero coefficient is refused", E.pc(), not_(eqn(a, ZERO)), loc_of(E.f))
    check_throws(ctx, E, "clamping")
    for sgn, u in (("positive", gt(a, ZERO)), ("negative", lt(a, ZERO))):
        ctx.eq("clamping", "nearest feasible value, %s coefficient" % sgn, E.ret, clamp(a, b, x), loc_of(E.f), u)
    isvec = lambda f: TyRef(f["_m"], f["params"][0]["t"]).kind != "flt"
    E = run("ShiftTo", [x], 1, lambda f: not isvec(f))
    shifted(ctx, E, E.ret, x)
    vec_ = sym_mat(mk("in", "xv", sort="o"), mk("dim", "nx", sort="i"), ONE)

    def mk_v(E):
        mk_c(E)
        E.x = E.s.root("xv", vec_)
    f = P.fn(LIC + "::ShiftTo", 1, isvec)
    E = Entry(ctx, f, lambda E: E.c, lambda E: [E.x], mk_v)
    var = E.cf["variable"]
    ctx.imp("shifting", "vector version: the index lies inside the vector", E.pc(), and_(geq(var, ZERO), lt(var, mk("dim", "nx", sort="i"))), loc_of(E.f))
    check_throws(ctx, E, "shifting")
    shifted(ctx, E, E.ret, m_at(vec_, var))
    i, v = mk("in", "i", sort="i"), mk("in", "v", sort="r")
    for fn, want in (("var_le", leq(x, v)), ("var_ge", geq(x, v))):
        E = Entry(ctx, "mo_witness::" + fn, None, [i, v])
        c = fields(E.s.val(E.ret))
        ctx.eq("builder", "Var(i) %s v names variable i" % ("<=" if fn == "var_le" else ">="), c["variable"], i, "include/mini_opt/qp.hpp")
        ctx.eq("builder", "Var(i) %s v" % ("<=" if fn == "var_le" else ">="), ite(geq(add(mul(c["a"], x), c["b"]), ZERO), ONE, ZERO), ite(want, ONE, ZERO), "include/mini_opt/qp.hpp")


def rb_of(v):
    return v if v.sort == "b" or v in (TRUE, FALSE) else not_(eqn(v, ZERO))


def shifted(ctx, E, ret, x0):
    c = fields(E.s.val(ret))
    dx = mk("in", "dx", sort="r")
    a, b = E.cf["a"], E.cf["b"]
    ctx.eq("shifting", "same variable", c["variable"], E.cf["variable"], loc_of(E.f))
    ctx.eq("shifting", "feasible in dx exactly when the original is feasible at x0 + dx", ite(geq(add(mul(c["a"], dx), c["b"]), ZERO), ONE, ZERO),
           ite(geq(add(mul(a, add(x0, dx)), b), ZERO), ONE, ZERO), loc_of(E.f))


RULES = {"Q01": q01, "Q02": q02, "Q11": q11, "Q12": q12, "Q13": q13, "Q14": q14, "Q15": q15, "Q16": q16}
