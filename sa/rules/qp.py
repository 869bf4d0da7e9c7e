"""Rules for the quadratic-program solvers (Q01..Q16)."""
import itertools
from ..rulekit import *
from ..qpspec import *
from ..interp import nonempty
from .. import loops as _loops
from .. import values, reval

SAT = 0


def enum_val(prog, q, name):
    for e in prog.enums.get(q, {}).get("e", []):
        if e["n"] == name:
            return int(e["v"])
    raise Undecided("enumerator %s::%s" % (q, name))


class QPRun:
    """Setup(problem); Solve(params) on a solver object whose state is arbitrary"""
    def __init__(self, ctx, M=None):
        self.ctx = ctx
        P = ctx.prog()
        s = self.s = Session(P)
        f = P.fn(SOLVER + "::Setup")
        s.begin(f["_m"])
        self.solver = s.sym_object(SOLVER, "solver")
        self.q = QPData(s, M=M)
        self.s_mem_qp = s.st.mem["qp"]
        s.run(SOLVER + "::Setup", self.solver, [ptr(self.q.ref)])
        self.after_setup = dict(s.st.mem)
        self.setup_pc = s.st.pc
        self.setup_events = len(s.events)
        self.params = s.sym_object(SOLVER + "::Params", "params")
        self.pf = fields(s.st.mem["params"])
        r = s.P.rec_by_q if False else None

        def pat(x):
            # slacks and inequality multipliers are positive at every loop header (shown by Q05/Q09)
            if x.op == "el" and x.args[0].op == "phi" and str(x.args[0].args[0]).endswith("|solver.variables_"):
                return self.posbound(x)
            return None
        self.ret = s.run(SOLVER + "::Solve", self.solver, [self.params])
        self.returns = list(s.top_returns)
        ctx.session(s)
        self.events = s.events[self.setup_events:]
        self.find_loop()

    def posbound(self, x):
        return None

    def find_loop(self):
        """the iteration loop: the outermost loop that records iterations"""
        s = self.s
        pushes = [e for e in self.events if e.kind == "push" and "Iteration" in str(e.data.get("type", "")) + brief(e.data.get("value", TRUE), 60) + str(e.data.get("name", ""))]
        cands = [e for e in self.events if e.kind == "push" and e.ctx]
        if not cands:
            raise Undecided("no iteration loop found")
        lid = cands[-1].ctx[0][0]
        self.pushes = [e for e in cands if e.ctx[0][0] == lid]
        L = [l for l in s.loops if l.lid == lid and not l.ctx]
        if not L:
            raise Undecided("iteration loop not analysed")
        self.L = L[-1]
        self.ctx.state.add(self.L.lid)
        L = self.L
        if L.back is None:
            raise Undecided("iteration loop has no back edge")
        self.head, self.back = L.hmem, L.back.mem
        self.loc = L.loc
        self.mus = [ph for n, ph in L.phis.items() if ph.closed is None and ph.sym is not None and is_scalar(ph.sym) and ph.sym.sort == "r"]
        self.lists = [ph for n, ph in L.phis.items() if ph.sym is not None and ph.sym.op == "list"]

    # ---- values
    def f(self, mem):
        return fields(mem["solver"])

    def vars(self, mem):
        return blocks(self.q, self.f(mem)["variables_"])

    def val(self, mem, ph):
        return _loops.get_path(mem[ph.key[0]], ph.key[1], self.s)

    def resid(self, mem):
        return blocks(self.q, self.f(mem)["r_"])

    def mu(self):
        if len(self.mus) != 1:
            raise Undecided("barrier variable of the iteration loop not identified (%d candidates)" % len(self.mus))
        return self.mus[0]

    # ---- the residual invariant: r_ == KKT(variables_) at the loop header
    def residual_lemma(self):
        if hasattr(self, "_lemma"):
            return self._lemma
        ok = True
        why = []
        for nm, mem in (("loop entry", self.L.entry), ("end of iteration", self.back)):
            sp = kkt(self.q, *self.vars(mem))
            for b, x, y in zip(("dual", "complementarity", "equality", "inequality"), self.resid(mem), sp):
                r = equal(nonempty(x), nonempty(y))
                why.append((nm, b, x, y, r))
                if r[0] is not True:
                    ok = False
        self._lemma = (ok, why)
        mp = {}
        if ok:
            sp = kkt(self.q, *self.vars(self.head))
            for x, y in zip(self.resid(self.head), sp):
                b = x.args[2] if x.op == "mat" and not x.args[3] else None
                if b is not None and b.op == "el" and b.args[0].op == "phi":
                    mp[b.args[0]] = y
        self._rmap = mp
        return self._lemma

    def at_point(self, n, deep=True):
        """express n over the point at the loop header (replaces the remembered residual by its invariant value)"""
        self.residual_lemma()
        mp = self._rmap
        if not mp:
            return n
        memo = {}

        def g(x):
            if x.op == "el":
                if x.args[0] in mp:
                    return m_at(mp[x.args[0]], rewrite(x.args[1], g, memo), rewrite(x.args[2], g, memo))
                if x.args[0].op == "named" and any(p in mp for p in x.args[0].args[1:]):
                    b = rewrite(named_body(x.args[0]), g, memo)
                    nb = name_body(b) if b.size > 40 else b
                    return subst(nb, {ROW: rewrite(x.args[1], g, memo), COL: rewrite(x.args[2], g, memo)})
            if x.op == "nscal" and any(p in mp for p in x.args[1:]):
                return rewrite(named_body(x), g, memo)
            return None
        return rewrite(n, g, memo)

    # ---- records
    def record(self, mem=None):
        """fields of the record appended in an iteration"""
        if not self.lists:
            raise Undecided("no list of iteration records")
        ph = [p for p in self.lists if "Iteration" in str(p.sym.args[0])] or self.lists
        self.rec_phi = ph[0]
        b = self.val(mem or self.back, ph[0])
        if b.op != "list":
            raise Undecided("iteration list: " + b.op)
        return b, ph[0]

    def last_record(self, mem=None):
        b, ph = self.record(mem)
        segs = b.args[1:]
        if not segs or segs[-1][0] != "one":
            raise Undecided("iteration record not found")
        return fields(segs[-1][1])

    def errors(self, v, mu):
        """specified error norms at point v"""
        rd, rc, re, ri = kkt(self.q, *v)
        M, K = self.q.M, self.q.K
        hasM, hasK = geq(M, ONE), geq(K, ONE)
        comp = S(M, lambda i: powi(sub(m_at(rc, i), mu), 2))
        return {"r_dual": sqrt_(norm2(rd)), "r_comp": ite(hasM, sqrt_(comp), ZERO),
                "r_primal_eq": ite(hasK, sqrt_(norm2(re)), ZERO), "r_primal_ineq": ite(hasM, sqrt_(norm2(ri)), ZERO)}

    def compl(self, v):
        M = self.q.M
        return ite(geq(M, ONE), div(S(M, lambda i: mul(m_at(v[1], i), m_at(v[3], i))), M), ZERO)

    def strategy(self, name):
        v = enum_val(self.s.p, "mini_opt::BarrierStrategy", name)
        return fin_eq(self.pf["barrier_strategy"], (v,), self.dom("mini_opt::BarrierStrategy"))

    def method(self, name):
        v = enum_val(self.s.p, "mini_opt::InitialGuessMethod", name)
        return fin_eq(self.pf["initial_guess_method"], (v,), self.dom("mini_opt::InitialGuessMethod"))

    def dom(self, q):
        return tuple(sorted({int(e["v"]) for e in self.s.p.enums[q]["e"]}))


def qprun(ctx):
    if "qp" not in ctx.cache:
        ctx.cache["qp"] = QPRun(ctx)
    return ctx.cache["qp"]


def sq_clean(x):
    """sqrt(max(0, v)) of a sum of squares is sqrt(v)"""
    def g(n):
        if n.op == "sqrt" and n.args[0].op == "max" and any(i is ZERO for i in n.args[0].args[0]) and len(n.args[0].args[0]) == 2:
            o = [i for i in n.args[0].args[0] if i is not ZERO][0]
            return sqrt_(rewrite(o, g))
        return None
    return rewrite(x, g)


def q03(ctx):
    r = qprun(ctx)
    mu = r.mu().sym
    rec = r.last_record()
    for fld, mem in (("kkt_initial", r.head), ("kkt_final", r.back)):
        e = fields(rec[fld])
        want = r.errors(r.vars(mem), mu)
        for k in ("r_dual", "r_comp", "r_primal_eq", "r_primal_ineq"):
            got = r.at_point(e[k]) if fld == "kkt_initial" else e[k]
            ctx.eq("error norm", "%s.%s" % (fld, k), sq_clean(got), want[k], r.loc)
    # the evaluation of the residual by itself, from any state
    s, q, f = eval_at(ctx, "EvaluateKKTConditions", [TRUE])
    v = blocks(q, f["variables_"])
    for b, x, y in zip(("dual", "complementarity", "equality", "inequality"), blocks(q, fields(s.st.mem["solver"])["r_"]), kkt(q, *v)):
        ctx.eq("residual block", b, x, y, s.p.fn(SOLVER + "::EvaluateKKTConditions").get("q", ""))


def eval_at(ctx, method, args):
    """run one member function after Setup, from arbitrary values of all work buffers"""
    P = ctx.prog()
    s = Session(P)
    s.begin(P.fn(SOLVER + "::Setup")["_m"])
    ref_ = s.sym_object(SOLVER, "solver")
    q = QPData(s)
    s.run(SOLVER + "::Setup", ref_, [ptr(q.ref)])
    f = fields(s.st.mem["solver"])
    s.run(SOLVER + "::" + method, ref_, args)
    ctx.session(s)
    return s, q, f


# ------------------------------------------------------------------------------------------------ the step
def reduced_matrix(q, x, s, y, z):
    """blocks (x,x), (y,x), (y,y) of the reduced KKT matrix"""
    xx = matf(q.N, q.N, lambda i, j: add(m_at(q.G, i, j), S(q.M, lambda m: mulall(powi(q.a(m), 2), m_at(z, m), powi(m_at(s, m), -1), ind(eqn(q.var(m), i)), ind(eqn(q.var(m), j))))))
    yx = q.A
    return xx, yx


def step(q, Hinv, res, s, z, mu, corr):
    """(dx, ds, dy, dz) solving the linearised perturbed KKT system; corr(i): second order term"""
    N, K, M = q.N, q.K, q.M
    rd, rc, re, ri = res
    cm = lambda m: add(m_at(rc, m), corr(m), neg(mu))
    si = lambda m: powi(m_at(s, m), -1)
    aug = vec(N, lambda i: add(m_at(rd, i), S(M, lambda m: mul(mul(ind(eqn(q.var(m), i)), q.a(m)),
                               add(mulall(m_at(z, m), si(m), m_at(ri, m)), mul(cm(m), si(m)))))))
    if aug.args[2].size > 40:
        aug = mat(N, ONE, name_body(aug.args[2]))
    dx = vec(N, lambda i: neg(add(S(N, lambda j: mul(m_at(Hinv, i, j), m_at(aug, j))), S(K, lambda k: mul(m_at(Hinv, i, add(N, k)), m_at(re, k))))))
    dy = vec(K, lambda i: add(S(N, lambda j: mul(m_at(Hinv, add(N, i), j), m_at(aug, j))), S(K, lambda k: mul(m_at(Hinv, add(N, i), add(N, k)), m_at(re, k)))))
    dx = mat(N, ONE, name_body(dx.args[2]))
    ds = vec(M, lambda m: add(mul(q.a(m), m_at(dx, q.var(m))), m_at(ri, m)))
    ds = mat(M, ONE, name_body(ds.args[2]))
    dz = vec(M, lambda m: neg(add(mulall(m_at(z, m), si(m), m_at(ds, m)), mul(cm(m), si(m)))))
    return dx, ds, dy, dz


def loop_decs(r):
    ds = []
    for e in r.events:
        if e.kind == "decompose" and e.ctx and e.ctx[0][0] == r.L.lid and e.data["dec"] not in [d.data["dec"] for d in ds]:
            ds.append(e)
    return ds


def used_dec(r):
    ds = loop_decs(r)
    if len(ds) != 1:
        raise Undecided("%d factorisations per iteration" % len(ds))
    e = ds[0]
    d = e.data["dec"]
    if d.op != "dec" or d.args[2].op != "mat" or d.args[0] not in ("LDLT", "LLT"):
        raise Undecided("factorisation not modelled")
    return e, d


def hinv(r, d):
    return r.s.eig.inv_mat(d.args[2], True)


def q04(ctx):
    r = qprun(ctx)
    q = r.q
    N, K = q.N, q.K
    e, d = used_dec(r)
    am = d.args[2]
    x, s, y, z = r.vars(r.head)
    ctx.expect(am.args[0] is add(N, K) and am.args[1] is add(N, K), "reduced matrix", "size N+K", e.loc, "matrix is %s x %s" % (brief(am.args[0], 60), brief(am.args[1], 60)))
    xx, yx = reduced_matrix(q, x, s, y, z)
    ge = geq(ROW, COL)
    ctx.eq("reduced matrix", "Hessian block, lower triangle", m_body(m_read(am, ZERO, ZERO, N, N)), m_body(xx), e.loc, ge)
    inK = and_(geq(K, ONE), lt(ROW, K))
    ctx.eq("reduced matrix", "equality block", m_body(m_read(am, N, ZERO, K, N)), m_body(yx), e.loc, and_(inK, lt(COL, N)))
    ctx.eq("reduced matrix", "zero block", m_body(m_read(am, N, N, K, K)), ZERO, e.loc, and_(inK, lt(COL, K), ge))
    res = kkt(q, x, s, y, z)
    Hi = hinv(r, d)
    f = r.f(r.back)
    got = blocks(q, f["delta_"])
    rec = r.last_record()
    mu = fields(rec["ip_outputs"])["mu"]
    aff = step(q, Hi, res, s, z, ZERO, lambda m: ZERO)
    pc = r.strategy("PREDICTOR_CORRECTOR")
    mun = r.at_point(mu)
    muv = name_scalar(mun) if mun.size > 40 else mun
    hasM = geq(q.M, ONE)
    for nm, under, want in (
            ("plain", and_(not_(pc), hasM), step(q, Hi, res, s, z, muv, lambda m: ZERO)),
            ("corrector", and_(pc, hasM), step(q, Hi, res, s, z, muv, lambda m: mul(m_at(aff[1], m), m_at(aff[3], m)))),
            ("no inequalities", eqn(q.M, ZERO), step(q, Hi, res, s, z, ZERO, lambda m: ZERO))):
        for b, g, w in zip(("dx", "ds", "dy", "dz"), got, want):
            if b in ("ds", "dz") and nm == "no inequalities":
                continue
            u = and_(under, geq(K, ONE)) if b == "dy" else under
            ctx.eq("step", "%s (%s)" % (b, nm), r.at_point(m_body(g)), m_body(w), r.loc, u)
    # each function on its own: the step from arbitrary buffers


# ------------------------------------------------------------------------------------------------ step length
def alpha_spec(q, v, dv, tau):
    """largest a in (0,1] with v + a*dv >= (1 - tau)*v where the full step would leave the positive orthant"""
    j = iv(fresh("m"))
    a, d = m_at(v, j), m_at(dv, j)
    cond = and_(leq(add(a, d), ZERO), not_(eqn(d, ZERO)))
    return neg(maxfold(num(-1), j, q.M, cond, mulall(num(tau), a, powi(d, -1))))


def one_fold(a):
    """a step length -max(-1, max over the constraints) or 1/max(1, max over the constraints): (fold, reciprocal)"""
    if a.op == "max":
        return None
    t = terms(a)
    if len(t) != 1:
        return None
    (m, c), = t.items()
    if len(m) != 1 or m[0][0].op != "max" or (c, m[0][1]) not in ((-1, 1), (1, -1)):
        return None
    xs = list(m[0][0].args[0])
    fo = [x for x in xs if x.op == "maxfold"]
    return (fo[0], c == 1) if len(fo) == 1 and len(xs) == 2 and num(c) in xs else None


def same_cuts(a, b, v, d, pre):
    """two step lengths cut back by the same amount for every entry whose value v is positive, whatever its step d"""
    fa, fb = (one_fold(assume_bool(x, pre, True)) for x in (a, b))
    if fa is None or fb is None or fa[0].args[0] is not fb[0].args[0]:
        return False
    return any(same_fold(fa, fb, v, d, back) for back in (False, True))


def cut_eq(ctx, q, rule, subject, got, v, d, tau, loc, under, full=None):
    """the step length got is the required one for positive values v"""
    want = alpha_spec(q, v, d, tau)
    if same_cuts(got, want, v, d, under) or full is not None and same_cuts(got, alpha_spec(q, v, full, tau), v, full, under):
        return ctx.ok(rule, subject, loc)
    ctx.eq(rule, subject, got, want, loc, under)
    o = ctx.obs[-1]
    if o[0] is False:       # only values that are positive matter
        j = iv(fresh("m"))
        if reval.separated(got, want, list(conjuncts(under)) + [mk_forall(j, q.M, gt(m_at(v, j), ZERO))], 4000, 4) is False:
            ctx.obs[-1] = (None,) + o[1:4] + ("told apart only where a value is not positive",)


def same_fold(fa, fb, v, d, back):
    """back: the entries are visited in opposite orders"""
    j = iv(fresh("m"))
    vj, dj = m_at(v, j), m_at(d, j)
    steps = {x for m in terms(dj) for x, e in m if x.op != "ind"}
    if vj.op in ("num", "poly") or vj in steps or any(e != 1 for m in terms(dj) for x, e in m):
        return False
    # steps measured in units of the value, which is positive, for each sign of the step
    P = mk("value", fresh("value"), sort="r")
    for signs in itertools.product((0, 1, -1), repeat=len(steps)):
        size = [mk("value", fresh("step"), sort="r") for x in steps]
        unit = {x: mulall(num(sg), P, E) for x, sg, E in zip(sorted(steps, key=lambda x: x.id), signs, size)} | {vj: P}

        scaled = scaling([P] + size)
        out = []
        for f, inv in (fa, fb):
            dom, c, x, lv = f.args
            c, x = (replace_bound(e, lv, j) for e in (c, x))
            if back and f is fa[0]:
                c, x = (subst(e, {j: sub(sub(dom, ONE), j)}) for e in (c, x))
            c, x = (replace(e, unit) for e in (c, x))
            out += [rewrite(c, scaled), neg(powi(x, -1)) if inv else x]
        pos = and_(*[gt(x, ZERO) for x in [P] + size])
        if not implies_both(pos, out[0], out[2]) or equal(out[1], out[3], and_(pos, out[2]))[0] is not True:
            return False
    return True


def scaling(positive):
    """rewriting of comparisons with zero by dividing by factors that are positive"""
    def scaled(x):
        if x.op == "lit" and x.args[1] == "n":
            q, S = x.args[0], x.args[2]
            for y in positive:          # positive factors do not matter to a sign
                es = [dict(m).get(y, 0) for m in terms(q)] + [0 for i in S if not zero_bounds(x)]
                k = min(es)
                if es and k and zero_bounds(x):
                    q = mul(q, powi(y, -k))
                elif k < 0:
                    return lit_scaled(q, S, powi(y, -k), scaled)
            return lit_num_subst(q, S) if q is not x.args[0] else None
        return None
    return scaled


def lit_scaled(q, S, k, again):
    """the literal with both sides multiplied by k > 0"""
    out = []
    for lo, lc, hi, hc in S:
        cs = []
        for bound, rel in ((lo, geq if lc else gt), (hi, leq if hc else lt)):
            if bound is not None:
                cs.append(rel(mul(sub(q, num(bound)), k), ZERO))
        out.append(and_(*cs))
    return rewrite(or_(*out), again)


def zero_bounds(x):
    return all(y in (None, 0) for i in x.args[2] for y in (i[0], i[2]))


def replace_bound(e, lv, j):
    return _replace_bv(e, {bv(lv): j}, {})


def implies_both(pre, p, q):
    return entails(and_(pre, p), q)[0] is True and entails(and_(pre, q), p)[0] is True


def taus(n):
    out = set()
    for x in atoms_of(n, lambda y: y.op == "maxfold"):
        body = x.args[2]
        for m, c in terms(body).items():
            out.add(abs(c))
    return sorted(out)


def with_names(m):
    return mat(m.args[0], m.args[1], name_body(m_body(m))) if m.op == "mat" and m_body(m).size > 40 else m


def unfolded(ctx, r, nm):
    """a step length that is not a fold the analysis knows may still be refuted for a problem with two inequalities"""
    if ctx.obs[-1][0] is not None:
        return
    M = num(2)
    cons = mk("in", "qp.constraints", sort="o")
    values.FIXED[cons] = M
    got = []
    which, k = ("primal", 1) if nm.startswith("primal") else ("dual", 3)
    try:
        if "qp2" not in ctx.cache:
            ctx.cache["qp2"] = QPRun(ctx, M)
        t = ctx.cache["qp2"]
        a = fields(fields(t.last_record()["ip_outputs"])["alpha"])[which]
        v, d = t.vars(t.head)[k], blocks(t.q, t.f(t.back)["delta_"])[k]
        # where every step goes down, measured in units of the values
        unit, pos = {}, []
        for i in (0, 1):
            x, y = m_at(v, num(i)), m_at(d, num(i))
            steps = sorted({z for m in terms(y) for z, e in m if z.op != "ind"}, key=lambda z: z.id)
            if x.op in ("num", "poly") or x in steps or any(e != 1 for m in terms(y) for z, e in m):
                return
            P = unit[x] = mk("value", fresh("value"), sort="r")
            pos.append(P)
            for z in steps:
                E = mk("value", fresh("step"), sort="r")
                pos.append(E)
                unit[z] = neg(mul(P, powi(E, -1)))      # the cut is linear in E
        pre = and_(*[gt(x, ZERO) for x in pos])
        scaled = scaling(pos)
        a = rewrite(replace(a, unit), scaled)
        if contains(a, lambda z: z.op in ("el", "phi", "named")):       # depends on more than the two entries
            return
        # the fraction is one of the constants of the value
        cs = {abs(c) for x in {a} | set(atoms_of(a, lambda n: n.op in ("poly", "max"))) for y in (x.args[0] if x.op == "max" else (x,)) for c in terms(y).values()}
        cs |= {abs(x / y) for x in cs for y in cs if y}
        cs = sorted(c for c in cs if 0 < c < 1)
        for tau in [c for c in cs if c >= F1 / 2][-6:] or [F1 * 199 / 200]:
            want = ONE
            for i in (0, 1):
                x, y = (replace(m_at(z, num(i)), unit) for z in (v, d))
                c = mulall(num(-tau), x, powi(y, -1))
                want = ite(and_(leq(add(x, y), ZERO), lt(c, want)), c, want)
            ctx.eq("fraction to the boundary", nm + " of a problem with two inequalities (tau=%s)" % tau, a, rewrite(want, scaled), r.loc, pre)
            got.append(ctx.obs.pop())
            if reval.separated(a, want, [], 300, 100, positive=pos) is not True:
                return
        if got and all(o[0] is False for o in got):
            ctx.obs.append(got[-1])
    except Undecided:
        pass
    finally:
        del values.FIXED[cons]


def q05(ctx):
    r = qprun(ctx)
    q = r.q
    rec = r.last_record()
    al = fields(fields(rec["ip_outputs"])["alpha"])
    ap, ad = al["primal"], al["dual"]
    old, new = r.vars(r.head), r.vars(r.back)
    dl = blocks(q, r.f(r.back)["delta_"])
    for b, o, n, d, a in zip("xsyz", old, new, dl, (ap, ap, ad, ad)):
        want = m_ewise(lambda p, t: add(p, mul(a, t)), o, d)
        ctx.eq("update", "%s moves along its step by the %s step length" % (b, "primal" if b in "xs" else "dual"), n, want, r.loc)
    hasM = geq(q.M, ONE)
    for nm, a, v, d in (("primal step length from the slacks", ap, old[1], dl[1]), ("dual step length from the multipliers", ad, old[3], dl[3])):
        ts = [t for t in taus(a) if 0 < t < 1]
        fo = one_fold(assume_bool(a, hasM, True))
        if fo is not None and fo[1]:
            ts = [1 / t for t in taus(a) if t > 1]
        if not ts:
            allt = taus(a)
            if fo is not None and not fo[1] and allt and not a.opq:
                ctx.bad("fraction to the boundary", nm, r.loc, "the step may lose the fraction(s) %s of a variable; it must be below one" % [str(t) for t in allt])
            else:
                ctx.eq("fraction to the boundary", nm, a, alpha_spec(q, v, d, F1 * 199 / 200), r.loc, hasM)
                unfolded(ctx, r, nm)
            continue
        t = ts[0] if len(ts) == 1 else F1 * 199 / 200
        cut_eq(ctx, q, "fraction to the boundary", nm + " (tau=%s)" % t, a, v, d, t, r.loc, hasM)
        unfolded(ctx, r, nm)
        z = assume_bool(a, eqn(q.M, ZERO), True)
        if is_num(z):
            ctx.expect(0 < z.args[0] <= 1, "fraction to the boundary", nm + " without inequalities lies in (0,1]", r.loc, "is " + show(z))
    # non-positive slacks are refused before the factorisation
    j = iv(fresh("m"))
    pos = mk_forall(j, q.M, gt(m_at(old[1], j), ZERO))
    for e in loop_decs(r):
        ctx.imp("slack guard", "non-positive slacks raise before they are divided by", and_(e.cond(), hasM), pos, e.loc)


# ------------------------------------------------------------------------------------------------ termination
def kmax(e):
    return max_(*[e[k] for k in ("r_dual", "r_comp", "r_primal_eq", "r_primal_ineq")])


def state_is(r, ret, name):
    v = enum_val(r.s.p, "mini_opt::QPInteriorPointTerminationState", name)
    return fin_eq(rget(ret, "termination_state"), (v,), r.dom("mini_opt::QPInteriorPointTerminationState"))


def q06(ctx):
    r = qprun(ctx)
    pf = r.pf
    tol, ctol = pf["termination_kkt_tol"], pf["termination_complementarity_tol"]
    mu = r.mu().sym
    nsat = nmax = 0
    for pc, v, mem in r.returns:
        sat, mx = state_is(r, v, "SATISFIED_KKT_TOL"), state_is(r, v, "MAX_ITERATIONS")
        cond = pc_cond(pc)
        ctx.imp("states", "a solve ends in one of the two states", cond, or_(sat, mx), r.loc)
        inside = brk_values(r, mem)
        if and_(cond, sat) is not FALSE:
            nsat += 1
            its = rget(v, "iterations")
            if its.op == "list" and its.args[1:] and its.args[-1][0] == "one":
                rec = fields(its.args[-1][1])
            else:
                rec = r.last_record()
            e = {k: sq_clean(x) for k, x in fields(rec["kkt_final"]).items()}
            claim = and_(lt(kmax(e), tol), lt(r.compl(r.vars(mem)), ctol))
            ctx.imp("claimed convergence", "SATISFIED_KKT_TOL only when error and complementarity at the returned point are below tolerance",
                    and_(sq_clean(cond), sat), claim, r.loc)
            want = r.errors(r.vars(mem), mu)
            for k in e:
                ctx.eq("claimed convergence", "the tested error %s is that of the returned point" % k, e[k], want[k], r.loc)
        if and_(cond, mx) is not FALSE:
            nmax += 1
            phi_n = r.L.n
            if not r.L.counted:
                ctx.unk("iteration limit", "iteration loop is not a counted loop", r.loc)
    ctx.expect(nsat > 0 and nmax > 0, "states", "both termination states are produced", r.loc, "%d convergence exits, %d iteration-limit exits" % (nsat, nmax))
    # the loop only goes on if the point just computed does not pass the test
    rec = r.last_record()
    e = {k: sq_clean(x) for k, x in fields(rec["kkt_final"]).items()}
    claim = and_(lt(kmax(e), tol), lt(r.compl(r.vars(r.back)), ctol))
    bc = sq_clean(and_(*[c for _, c in r.L.back.pc[len(r.L.pc):]]))
    ctx.imp("first success", "iterations continue only while the tolerances are not met", bc, not_(claim), r.loc)


def brk_values(r, mem):
    return mem


def q07(ctx):
    r = qprun(ctx)
    L = r.L
    mu = r.mu().sym
    maxit = r.pf["max_iterations"]
    if L.counted and L.n is not None:
        ctx.eq("iteration count", "at most max_iterations iterations", L.n, maxit, L.loc)
    else:
        ctx.unk("iteration count", "iteration loop not counted", L.loc)
    ctx.imp("iteration count", "at least one iteration", pc_cond(L.pc), geq(maxit, ONE), L.loc)
    b, ph = r.record()
    ent = ph.entry
    ctx.expect(ent.op == "list" and len(ent.args) == 1, "records", "the record list starts empty", L.loc, "starts as " + brief(ent, 100))
    segs = b.args[1:]
    hd = ph.sym.args[1:]
    ctx.expect(len(segs) == len(hd) + 1 and segs[:len(hd)] == hd and segs[-1][0] == "one", "records", "exactly one record is appended per iteration that goes on", L.loc,
               "iteration appends " + brief(b, 200))
    for pc, v, mem in r.returns:
        its = rget(v, "iterations")
        if its.op != "list":
            ctx.unk("records", "returned record list", L.loc, brief(its, 100))
            continue
        sat = state_is(r, v, "SATISFIED_KKT_TOL")
        if sat is TRUE:
            s2 = its.args[1:]
            ctx.expect(len(s2) == len(hd) + 1 and s2[:len(hd)] == hd and s2[-1][0] == "one", "records", "the converged exit returns every record including the last", L.loc, brief(its, 200))
        elif sat is FALSE:
            ctx.expect(its.args[1:] == hd, "records", "the iteration-limit exit returns the records of all iterations", L.loc, brief(its, 200))
        else:
            ctx.unk("records", "merged exits", L.loc)
    # truth of the recorded values
    rec = fields(segs[-1][1])
    out = fields(rec["ip_outputs"])
    want0 = r.errors(r.vars(r.head), mu)
    want1 = r.errors(r.vars(r.back), mu)
    for k in want0:
        ctx.eq("recorded errors", "kkt_initial.%s before the step, with the iteration's barrier" % k, sq_clean(r.at_point(fields(rec["kkt_initial"])[k])), want0[k], L.loc)
        ctx.eq("recorded errors", "kkt_final.%s after the step, with the iteration's barrier" % k, sq_clean(fields(rec["kkt_final"])[k]), want1[k], L.loc)
    old, new = r.vars(r.head), r.vars(r.back)
    dl = blocks(r.q, r.f(r.back)["delta_"])
    al = fields(out["alpha"])
    for nm, b, a in (("primal", 1, al["primal"]), ("primal", 0, al["primal"]), ("dual", 3, al["dual"]), ("dual", 2, al["dual"])):
        want = m_ewise(lambda p, t: add(p, mul(a, t)), old[b], dl[b])
        ctx.eq("recorded step length", "the recorded %s step length is the one applied to %s" % (nm, "xsyz"[b]), new[b], want, L.loc)
    pc = r.strategy("PREDICTOR_CORRECTOR")
    ctx.eq("recorded barrier", "barrier value of the plain strategies", out["mu"], mu, L.loc, or_(not_(pc), eqn(r.q.M, ZERO)))
    affine_probe(ctx, r, out, mu, and_(pc, geq(r.q.M, ONE)))
    # the step is computed with the recorded barrier
    e, d = used_dec(r)
    res = kkt(r.q, *old)
    mun = r.at_point(out["mu"])
    muv = name_scalar(mun) if mun.size > 40 else mun
    Hi = hinv(r, d)
    aff = step(r.q, Hi, res, old[1], old[3], ZERO, lambda m: ZERO)
    for nm, u, corr in (("plain", not_(pc), lambda m: ZERO), ("corrector", pc, lambda m: mul(m_at(aff[1], m), m_at(aff[3], m)))):
        w = step(r.q, Hi, res, old[1], old[3], muv, corr)
        ctx.eq("recorded barrier", "the recorded barrier is the one the step was computed with (%s)" % nm, r.at_point(m_body(dl[3])), m_body(w[3]), L.loc, and_(u, geq(r.q.M, ONE)))


def affine_probe(ctx, r, out, mu, u):
    """the step lengths and the barrier recorded for the affine probe are those of the full affine step"""
    q = r.q
    ev, d = used_dec(r)
    old = r.vars(r.head)
    x, s, y, z = old
    aff = step(q, hinv(r, d), kkt(q, *old), s, z, ZERO, lambda m: ZERO)
    ds, dz = aff[1], aff[3]
    probe = fields(out["alpha_probe"])
    dsn, dzn = with_names(ds), with_names(dz)
    for nm, val, dv, full in (("primal", s, dsn, ds), ("dual", z, dzn, dz)):
        cut_eq(ctx, q, "affine probe", nm + " probe length is the full step to the boundary", r.at_point(probe[nm]), val, dv, F1, r.loc, u, full)
    ap, ad = probe["primal"], probe["dual"]
    apn, adn = [name_scalar(r.at_point(a)) for a in (ap, ad)]
    dot = lambda p, w: div(S(q.M, lambda i: mul(m_at(p, i), m_at(w, i))), q.M)
    maff = max_(add(mu, mul(adn, dot(s, dz)), mul(apn, dot(z, ds)), mulall(apn, adn, dot(ds, dz))), ZERO)
    ctx.eq("affine complementarity", "mu_affine", r.at_point(out["mu_affine"]), maff, r.loc, u)


def q08(ctx):
    r = qprun(ctx)
    q, pf = r.q, r.pf
    ph = r.mu()
    mu = ph.sym
    hasM = geq(q.M, ONE)
    init = pf["initialize_mu_with_complementarity"]
    ctx.eq("initial barrier", "initial value or average complementarity", ph.entry, ite(init, r.compl(r.vars(r.L.entry)), pf["initial_mu"]), r.loc, hasM)
    new = sq_clean(r.val(r.back, ph))
    rec = r.last_record()
    e = {k: sq_clean(x) for k, x in fields(rec["kkt_final"]).items()}
    small = leq(kmax(e), mu)
    fixed = r.strategy("FIXED_DECREASE")
    upd = ite(fixed, mul(pf["sigma"], mu), mul(pf["sigma"], r.compl(r.vars(r.back))))
    want = ite(or_(small, not_(pf["decrease_mu_only_on_small_error"])), upd, mu)
    ctx.eq("barrier update", "next barrier value", new, want, r.loc, hasM)
    # predictor-corrector centring
    out = fields(rec["ip_outputs"])
    pc = r.strategy("PREDICTOR_CORRECTOR")
    ev, d = used_dec(r)
    old = r.vars(r.head)
    x, s, y, z = old
    res = kkt(q, *old)
    u = and_(pc, hasM)
    affine_probe(ctx, r, out, mu, u)
    man = name_scalar(r.at_point(out["mu_affine"]))
    ctx.eq("centring", "barrier of the corrector step is (mu_affine/mu)^3 mu", r.at_point(out["mu"]), mul(powi(div(man, mu), 3), mu), r.loc, u)
    ctx.eq("centring", "other strategies use the barrier as it is", out["mu"], mu, r.loc, and_(not_(pc), hasM))
    # no barrier without inequalities
    dl = blocks(q, r.f(r.back)["delta_"])
    w0 = step(q, hinv(r, d), res, s, z, ZERO, lambda m: ZERO)
    ctx.eq("no barrier", "the step of a problem without inequalities does not use the barrier", r.at_point(m_body(dl[0])), m_body(w0[0]), r.loc, eqn(q.M, ZERO))


# ------------------------------------------------------------------------------------------------ initial guess
def fold_spec(n, g, u, ent, k):
    lv, (dd, gg, uu) = T_close([k], [n, g, u])
    return mk("fold", dd, gg, uu, lv, ent, sort="r")


from ..terms import _close as T_close, _replace_bv, bv, lit_num_subst


def clamp(a, b, x):
    """nearest feasible value of a*x + b >= 0"""
    lim = neg(mul(b, powi(a, -1)))
    return ite(lt(a, ZERO), neg(max_(neg(x), neg(lim))), max_(x, lim))


def q09(ctx):
    r = qprun(ctx)
    q = r.q
    ent = r.vars(r.L.entry)
    user, naive, eqc = r.method("USER_PROVIDED"), r.method("NAIVE"), r.method("SOLVE_EQUALITY_CONSTRAINED")
    before = blocks(q, fields(r.after_setup["solver"])["variables_"])
    for b, x, y in zip("xsyz", ent, before):
        ctx.eq("user provided", "%s is used untouched" % b, x, y, r.loc, user)
    # the equality-constrained start
    ds = [e for e in r.events if e.kind == "decompose" and not e.ctx]
    k = iv(fresh("m"))
    def clamped(x0):
        body = fold_spec(q.M, eqn(ROW, q.var(k)), clamp(q.a(k), q.bb(k), OLD), x0, k)
        return mat(q.N, ONE, body)
    nonuser = []
    zero = mat(q.N, ONE, ZERO)
    cases = [("NAIVE", naive, zero, mat(q.K, ONE, ZERO))]
    if len(ds) == 1 and ds[0].data["dec"].op == "dec" and ds[0].data["dec"].args[2].op == "mat":
        d = ds[0].data["dec"]
        am = d.args[2]
        u = and_(eqc, geq(ROW, COL))
        inK = and_(geq(q.K, ONE), lt(ROW, q.K))
        ctx.eq("equality-constrained start", "Hessian block, lower triangle", m_body(m_read(am, ZERO, ZERO, q.N, q.N)), m_body(q.G), ds[0].loc, u)
        ctx.eq("equality-constrained start", "equality block", m_body(m_read(am, q.N, ZERO, q.K, q.N)), m_body(q.A), ds[0].loc, and_(eqc, inK, lt(COL, q.N)))
        ctx.eq("equality-constrained start", "zero block", m_body(m_read(am, q.N, q.N, q.K, q.K)), ZERO, ds[0].loc, and_(eqc, inK, lt(COL, q.K), geq(ROW, COL)))
        Hi = hinv(r, d)
        # with x = 0 and y = 0 the residual is (c, b)
        dx = vec(q.N, lambda i: neg(add(S(q.N, lambda j: mul(m_at(Hi, i, j), m_at(q.c, j))), S(q.K, lambda kk: mul(m_at(Hi, i, add(q.N, kk)), m_at(q.b, kk))))))
        dy = vec(q.K, lambda i: add(S(q.N, lambda j: mul(m_at(Hi, add(q.N, i), j), m_at(q.c, j))), S(q.K, lambda kk: mul(m_at(Hi, add(q.N, i), add(q.N, kk)), m_at(q.b, kk)))))
        cases.append(("SOLVE_EQUALITY_CONSTRAINED", eqc, dx, dy))
    else:
        ctx.unk("equality-constrained start", "%d factorisations before the iteration" % len(ds), r.loc)
    for nm, u, x0, y0 in cases:
        ctx.eq("start point", "x (%s) is clamped from its start" % nm, m_body(ent[0]), m_body(clamped(m_body(x0))), r.loc, u)
        ctx.eq("start point", "y (%s)" % nm, m_body(ent[2]), m_body(y0), r.loc, and_(u, geq(q.K, ONE)))
        sv = vec(q.M, lambda i: max_(num(Fraction(1, 10 ** 9)), add(mul(q.a(i), m_at(ent[0], q.var(i))), q.bb(i))))
        ctx.eq("start point", "s (%s) is the constraint value, at least 1e-9" % nm, m_body(ent[1]), m_body(sv), r.loc, u)
        ctx.eq("start point", "z (%s) is the reciprocal slack" % nm, m_body(ent[3]), m_body(vec(q.M, lambda i: powi(m_at(ent[1], i), -1))), r.loc, u)


def q10(ctx):
    r = qprun(ctx)
    q = r.q
    hasK = geq(q.K, ONE)
    for pc, v, mem in r.returns:
        o = rget(v, "lagrange_multipliers")
        y = r.vars(mem)[2]
        st = brief(rget(v, "termination_state"), 40)
        j = iv(fresh("m"))
        mn = neg(maxfold(None, j, q.K, TRUE, neg(m_at(y, j))))
        la = maxfold(None, j, q.K, TRUE, abs_(m_at(y, j)))
        has, val = opt_parts(o)
        if has is None:
            ctx.unk("summary", "optional summary of exit " + st, r.loc, brief(o, 160))
            continue
        ctx.eq("summary", "present exactly with equality constraints (%s)" % st, gite_bool(has), gite_bool(hasK), r.loc)
        f = fields_any(val)
        if f is None:
            ctx.unk("summary", "value of the summary", r.loc, brief(val, 160))
            continue
        ctx.eq("summary", "smallest multiplier (%s)" % st, f["min"], mn, r.loc, hasK)
        ctx.eq("summary", "largest magnitude (%s)" % st, max_(ZERO, f["l_infinity"]), max_(ZERO, la), r.loc, hasK)
    from . import nls
    nls.q10_nls(ctx)


def gite_bool(b):
    return ite(b, ONE, ZERO)


def fields_any(v):
    if v is not None and v.op == "rec":
        return fields(v)
    return None


def opt_parts(o):
    """(engaged?, value) of an optional"""
    if o.op == "gite":
        h1, v1 = opt_parts(o.args[1])
        h2, v2 = opt_parts(o.args[2])
        if h1 is None or h2 is None:
            return None, None
        h = or_(and_(o.args[0], h1), and_(not_(o.args[0]), h2))
        v = v1 if v2 is None else v2 if v1 is None else merge(o.args[0], v1, v2)
        return h, v
    if o.op == "rec" and o.args[0] == "optional":
        f = fields(o)
        return f["has"], (None if f["has"] is FALSE else f["val"])
    return None, None


RULES = {"Q03": q03, "Q04": q04, "Q05": q05, "Q06": q06, "Q07": q07, "Q08": q08, "Q09": q09, "Q10": q10}
