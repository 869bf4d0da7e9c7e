"""Rules for the nonlinear solver (N01..N14)."""
from .qp2 import *
from ..loops import get_path, leaf_name
from ..terms import _close as T_close

NLS = "mini_opt::ConstrainedNonlinearLeastSquares"
RES = "mini_opt::Residual"


# ------------------------------------------------------------------------------------------------ component models
def rdim(v):
    return mk("rdim", v, sort="i")


def rdim_bound(x):
    return (0, None) if x.op == "rdim" else None


def rerr(v, x):
    return mk("rerr", v, x, sort="o")


def obj_of(ip, e):
    r = ip.this_ref(e)
    return r, ip.load(r)


def m_dimension(ip, e):
    r, v = obj_of(ip, e)
    ip.event("res_dim", e, res=v)
    return rdim(v)


def target(ip, a):
    """reference designated by an output argument"""
    r = ip.ev(a)
    if r.op == "ref":
        return r
    return ip.deref(r, a) if r.op in ("ptr", "cptr") else r


def m_error(ip, e):
    r, v = obj_of(ip, e)
    x = ip.rv(e["args"][0])
    out = ip.ev(e["args"][1])
    ip.event("res_error", e, res=v, x=x, out=out)
    d = rdim(v)
    ip.store(out, sym_mat(rerr(v, x), d, ONE))
    return UNSET


def half_sq(v, x):
    d = rdim(v)
    k = iv(fresh("e"))
    return scale(mk_sum([(k, d)], powi(m_at(sym_mat(rerr(v, x), d, ONE), k, ZERO), 2)), Fraction(1, 2))


def m_hessian(ip, e):
    r, v = obj_of(ip, e)
    x = ip.rv(e["args"][0])
    H = ip.deref(ip.rv(e["args"][1]), e)
    b = ip.deref(ip.rv(e["args"][2]), e)
    Hv, bv_ = ip.load(H), ip.load(b)
    ip.event("res_hessian", e, res=v, x=x, H=H, b=b, Hv=Hv, bv=bv_)
    J = mk("rjtj", v, x, sort="o")
    g = mk("rjtr", v, x, sort="o")
    ip.store(H, m_ewise(add, Hv, matf(Hv.args[0], Hv.args[1], lambda i, j: mul_ind(geq(i, j), mk("el", J, i, j)))))
    ip.store(b, m_ewise(add, bv_, sym_mat(g, bv_.args[0], ONE)))
    return half_sq(v, x)


def m_jacobian(ip, e):
    r, v = obj_of(ip, e)
    x = ip.rv(e["args"][0])
    Jo = ip.ev(e["args"][1])
    bo = ip.ev(e["args"][2])
    Jv = ip.val(Jo)
    ip.event("res_jacobian", e, res=v, x=x, J=Jo, b=bo, Jv=Jv)
    jm = mk("rjac", v, x, sort="o")
    ip.store(Jo, matf(Jv.args[0], Jv.args[1], lambda i, j: ite(bsym(mk("rtouch", v, j, sort="i")), mk("el", jm, i, j), m_at(Jv, i, j))))
    ip.store(bo, sym_mat(rerr(v, x), ip.val(bo).args[0], ONE))
    return UNSET


_boxes = {}


def box(v):
    """handle for a value that is only compared as a whole"""
    b = _boxes.get(v)
    if b is None:
        b = mk("box", len(_boxes), sort="o")
        _boxes[v] = b
        _boxes[b] = v
    return b


def m_ip_setup(ip, e):
    r, v = obj_of(ip, e)
    p = ip.rv(e["args"][0])
    q = ip.deref(p, e)
    ip.event("ip_setup", e, solver=r, qp=q, qpv=ip.load(q))
    ip.store(r, mk("ipset", q, sort="o"))
    return UNSET


def m_ip_solve(ip, e):
    r, v = obj_of(ip, e)
    prm = ip.rv(e["args"][0])
    qpv = ip.load(v.args[0]) if v.op == "ipset" else mk("noqp", v, sort="o")
    st = mk("ipdone", v, box(qpv), box(prm), sort="o")
    out = ip.sym(ip.T(e), "ipout", (st,))
    ip.event("ip_solve", e, solver=r, set=v, qpv=qpv, params=prm, st=st, out=out)
    ip.store(r, st)
    return out


def dim_n(v):
    q = v.args[1] if v.op == "ipdone" else v.args[0] if v.op == "nsdone" else None
    q = _boxes.get(q)
    return m_rows(fields(q)["G"]) if q is not None and q.op == "rec" else mk("xrows", v, sort="i")


def m_ip_x(ip, e):
    r, v = obj_of(ip, e)
    n = ip.fr.name
    root = "%s.x@%s" % (n, ip.site(e))
    return ip.root(root, sym_mat(mk("ipx", v, sort="o"), dim_n(v), ONE))


def m_ns_solve(ip, e):
    r, v = obj_of(ip, e)
    q = ip.ev(e["args"][0])
    qpv = ip.val(q)
    st = mk("nsdone", box(qpv), sort="o")
    out = ip.sym(ip.T(e), "nsout", (st,))
    ip.event("ns_solve", e, solver=r, qpv=qpv, st=st, out=out)
    ip.store(r, st)
    return out


def m_ns_x(ip, e):
    r, v = obj_of(ip, e)
    root = "%s.x@%s" % (ip.fr.name, ip.site(e))
    return ip.root(root, sym_mat(mk("nsx", v, sort="o"), dim_n(v), ONE))


def m_nothing(ip, e):
    return UNSET


MODELS = {"mini_opt::trace_collector::submit_event": m_nothing, RES + "::Dimension": m_dimension, RES + "::ErrorVector": m_error, RES + "::UpdateHessian": m_hessian,
          RES + "::UpdateJacobian": m_jacobian, SOLVER + "::Setup": m_ip_setup, SOLVER + "::Solve": m_ip_solve,
          SOLVER + "::x_block": m_ip_x, NSOLVER + "::Solve": m_ns_solve, NSOLVER + "::variables": m_ns_x}


def havoc(s, t, v, name):
    """arbitrary value of the type with the dimensions of v"""
    if v.op == "mat":
        return sym_mat(mk("in", name, sort="o"), v.args[0], v.args[1])
    if v.op == "rec" and v.args[0] != "variant":
        r = s.record(t)
        if r is not None:
            fs = s.all_fields(r)
            return rec(v.args[0], v.args[1], [havoc(s, TyRef(m, f["t"]), x, name + "." + f["n"]) for (m, f), x in zip(fs, v.args[2:])])
    return s.sym(t, "in", (name,))


def make_nls(E):
    """an object constructed for an arbitrary problem, in an arbitrary later state"""
    s = E.s
    P = s.p
    add_pattern_bound(rdim_bound)
    E.prob = s.sym_object("mini_opt::Problem", "problem")
    E.pv = fields(s.st.mem["problem"])
    ctor = E.ctor = P.fn(NLS + "::ConstrainedNonlinearLeastSquares", pred=lambda f: len(f["params"]) == 2)
    fn = s.sym(TyRef(ctor["_m"], ctor["params"][1]["t"]), "in", ("retraction",))
    r = P.rec_by_q[NLS][0]
    m0 = dict(s.st.mem)
    E.nev0 = len(s.events)
    v = s.construct(ctor, [], TyRef(ctor["_m"], ctor["clst"]), {"l": ctor.get("l"), "f": ctor.get("f")}, [ptr(E.prob), fn])
    E.cv = fields(v)
    E.retr = fn
    tops = list(s.top_returns)
    E.ctor_pc = or_(*[pc_cond(pc) for pc, _, _ in tops])
    if len(tops) == 1:
        s.st = type(s.st)(s.st.mem, tops[0][0])
    E.ctor_events = s.events[E.nev0:]
    fs = s.all_fields(r)
    vals = []
    for (m, f), x in zip(fs, v.args[2:]):
        keep = x is fn or (x.op in ("ptr", "cptr"))
        vals.append(x if keep else havoc(s, TyRef(m, f["t"]), x, "nls." + f["n"]))
    E.hv = dict(zip(v.args[1], vals))
    E.nls = s.root("nls", rec(v.args[0], v.args[1], vals))
    E.params = s.sym_object(NLS + "::Params", "params")
    E.x0 = s.root("start", sym_mat(mk("in", "start", sort="o"), mk("dim", "X", sort="i"), ONE))
    E.pc0 = pc_cond(s.st.pc)
    E.nev = len(s.events)


def nlsrun(ctx):
    if "nls" not in ctx.cache:
        ctx.cache["nls"] = Entry(ctx, NLS + "::Solve", lambda E: E.nls, lambda E: [E.params, E.x0], make_nls, MODELS, {"scalars": 30, "nomerge": True})
    return ctx.cache["nls"]


# ------------------------------------------------------------------------------------------------ roles of the values
def leaves(v, g=TRUE):
    if v.op == "gite":
        yield from leaves(v.args[1], and_(g, v.args[0]))
        yield from leaves(v.args[2], and_(g, not_(v.args[0])))
    elif g is not FALSE:
        yield v, g


class NR:
    """the parts of an analysed solve, identified by their role"""
    def __init__(self, ctx):
        self.ctx = ctx
        E = self.E = nlsrun(ctx)
        if E.dead:
            raise Undecided("Solve never returns on the modelled paths")
        self.P = E.s.p
        s = self.s = E.s
        ev = self.ev = E.events[E.nev:]
        recs = [e for e in ev if e.kind == "push" and self.is_rec(e.data["value"], "NLSIteration")]
        if len(recs) != 1 or not recs[0].ctx:
            raise Undecided("%d places append iteration records" % len(recs))
        self.recev = recs[0]
        self.rec = fields(recs[0].data["value"])
        L = [l for l in s.loops if l.lid == self.recev.ctx[0][0] and not l.ctx]
        if not L or L[-1].back is None:
            raise Undecided("iteration loop not analysed")
        self.L = L[-1]
        self.ctx.state.add(self.L.lid)
        steps = [e for e in ev if e.kind == "push" and self.is_rec(e.data["value"], "LineSearchStep")]
        if len(steps) != 1 or len(steps[0].ctx) != 2:
            raise Undecided("%d places append line-search trials" % len(steps))
        self.stepev = steps[0]
        self.step = fields(steps[0].data["value"])
        L = [l for l in s.loops if l.lid == self.stepev.ctx[-1][0] and len(l.ctx) == 1]
        if not L:
            raise Undecided("search loop not analysed")
        self.Li = L[-1]
        self.ctx.state.add(self.Li.lid)
        self.head = fields(self.L.hmem["nls"])
        self.back = fields(self.L.back.mem["nls"])
        self.bpc = pc_cond(self.L.back.pc)
        self.pf = fields(E.mem0["params"])
        self.costs, self.eqs, self.ineqs = E.pv["costs"], E.pv["equality_constraints"], E.pv["inequality_constraints"]
        self.N = E.pv["dimension"]
        self.solve_ev = [e for e in ev if e.kind in ("ip_solve", "ns_solve")]
        self.ip_ev = [e for e in self.solve_ev if e.kind == "ip_solve"]
        self.ns_ev = [e for e in self.solve_ev if e.kind == "ns_solve"]
        self.X = self.head["variables_"]
        self.dx = self.back["dx_"]
        self.user_cb = self.head["user_exit_callback_"]
        self.cb_ev = [e for e in ev if e.kind == "user" and e.data["fn"] is not E.retr]
        self.loc = self.L.loc
        self.find_scalars()

    def is_rec(self, v, nm):
        return v.op == "rec" and str(v.args[0]).endswith("::" + nm)

    def val(self, mem, ph):
        return get_path(mem[ph.key[0]], ph.key[1], self.s)

    def find_scalars(self):
        sc = [ph for ph in self.L.phis.values() if ph.closed is None and ph.sym is not None and is_scalar(ph.sym) and ph.sym.sort == "r"]
        if not self.solve_ev:
            raise Undecided("no inner solve found")
        G = fields(self.solve_ev[0].data["qpv"])["G"]
        inG = [ph for ph in sc if contains(G, lambda x: x is ph.sym)]
        rest = [ph for ph in sc if ph not in inG]
        # the damping value is also used by its own update only; the penalty enters the merit function
        if len(inG) == 1:
            self.lam = inG[0]
        else:
            c = [ph for ph in sc if ph.entry is self.pf["lambda_initial"]]
            if len(c) != 1:
                raise Undecided("damping value not identified")
            self.lam = c[0]
        rest = [ph for ph in rest if ph is not self.lam]
        if len(rest) != 1:
            raise Undecided("penalty not identified (%d candidates)" % len(rest))
        self.pen = rest[0]
        st = [ph for ph in self.L.phis.values() if ph.sym is not None and ph.sym.sort == "e"]
        if len(st) != 1:
            raise Undecided("optimiser state not identified")
        self.state = st[0]

    # ---- enumerations
    def dom(self, q):
        return tuple(int(x["v"]) for x in self.P.enums[q]["e"])

    def is_(self, v, q, *names):
        q = "mini_opt::" + q
        return fin_eq(v, tuple(enum_val(self.P, q, n) for n in names), self.dom(q))

    def outcome(self, *names):
        return self.is_(self.rec["step_result"], "StepSizeSelectionResult", *names)

    @property
    def accepted(self):
        return self.outcome("SUCCESS")

    # ---- specification values
    def res(self, lst_, k):
        return lat(lst_, k, self.s.build)

    def spec_errors(self, x):
        k, k2, i = iv(fresh("k")), iv(fresh("k")), iv(fresh("i"))
        f = mk_sum([(k, lsize(self.costs))], half_sq(self.res(self.costs, k), x))
        r = self.res(self.eqs, k2)
        e = mk_sum([(k2, lsize(self.eqs))], mk_sum([(i, rdim(r))], abs_(m_at(sym_mat(rerr(r, x), rdim(r), ONE), i, ZERO))))
        return f, e

    def merit(self, errs, pen=None):
        e = fields(errs)
        return add(e["f"], mul(self.rec["penalty"] if pen is None else pen, e["equality"]))

    def slope(self):
        d = fields(self.rec["directional_derivatives"])
        return add(d["d_f"], mul(self.rec["penalty"], d["d_equality"]))

    def below(self, tol):
        d = fields(self.rec["directional_derivatives"])
        return and_(*[and_(lt(d[x], tol), lt(neg(d[x]), tol)) for x in ("d_f", "d_equality")])

    def K(self):
        return lsize(self.eqs)

    def has_eq(self):
        return geq(lsize(self.eqs), ONE)

    def null_case(self):
        return and_(geq(lsize(self.eqs), ONE), eqn(lsize(self.ineqs), ZERO))

    # ---- the point that is evaluated by the search
    def trial(self):
        xs = []
        for e in self.ev:
            if e.kind == "res_error" and len(e.ctx) >= 2 and e.ctx[1][0] == self.Li.lid and not any(e.data["x"] is x for x in xs):
                xs.append(e.data["x"])
        if len(xs) != 1:
            raise Undecided("%d different points are evaluated by one search trial" % len(xs))
        return xs[0]

    def is_point(self, v, x):
        return v is x or (v.op == "mat" and x.op == "mat" and v.args[2] is x.args[2] and not v.args[3] and not x.args[3])

    def new_lambda(self):
        """specified damping value after the iteration"""
        l, p = self.lam.sym, self.pf
        rest = self.is_(self.state.sym, "OptimizerState", "ATTEMPTING_RESTORE_LM")
        fail = self.outcome("MAX_ITERATIONS", "POSITIVE_DERIVATIVE")
        ten = scale(l, 10)
        return ite(self.accepted, max_(mul(l, ite(rest, p["lambda_decrease_on_restore"], p["lambda_decrease_on_success"])), p["min_lambda"]),
                   ite(fail, ite(rest, ten, max_(p["lambda_failure_init"], ten)), l))

    def exit_reasons(self):
        """conditions, in terms of the record, under which a completed iteration ends the solve"""
        p = self.pf
        e1 = fields(self.step["errors"])
        acc = self.accepted
        a = and_(acc, lt(e1["f"], p["absolute_exit_tol"]), lt(e1["equality"], p["absolute_exit_tol"]))
        m0 = self.merit(self.rec["errors_initial"])
        r = and_(acc, gt(self.merit(self.step["errors"]), mul(m0, sub(ONE, p["relative_exit_tol"]))))
        f = and_(self.outcome("FIRST_ORDER_SATISFIED"), self.below(p["absolute_first_derivative_tol"]))
        m = and_(self.outcome("MAX_ITERATIONS", "POSITIVE_DERIVATIVE"), gt(self.new_lambda(), p["max_lambda"]))
        return {"SATISFIED_ABSOLUTE_TOL": a, "SATISFIED_RELATIVE_TOL": r, "SATISFIED_FIRST_ORDER_TOL": f, "MAX_LAMBDA": m}

    def returns(self):
        """(status, guard, memory, location) of every way to return"""
        for pc, v, mem in self.E.returns:
            fs = fields(v)
            for st, g in leaves(fs["termination_state"]):
                if st.op != "enum":
                    raise Undecided("termination state %s" % brief(st, 60))
                nm = [x["n"] for x in self.P.enums["mini_opt::NLSTerminationState"]["e"] if int(x["v"]) == st.args[1]]
                yield nm[0] if nm else "?", and_(pc_cond(pc), g), mem, fs, pc

    def done_iteration(self, pc):
        """does this return happen after the record of the current iteration was appended?"""
        return any(c is x for k, c in pc for kk, x in self.recev.pc if x.size > 30) and len(pc) >= len(self.recev.pc)


def nr(ctx):
    ctx.cases = True
    if "nr" not in ctx.cache:
        ctx.cache["nr"] = NR(ctx)
    return ctx.cache["nr"]


# ------------------------------------------------------------------------------------------------ N01
def param_ranges(p):
    z, o = ZERO, ONE
    f = lambda n: p[n]
    return [("max_iterations >= 0", geq(f("max_iterations"), z)), ("max_qp_iterations >= 1", geq(f("max_qp_iterations"), o)),
            ("termination_kkt_tolerance > 0", gt(f("termination_kkt_tolerance"), z)), ("absolute_exit_tol > 0", gt(f("absolute_exit_tol"), z)),
            ("max_line_search_iterations >= 0", geq(f("max_line_search_iterations"), z)), ("relative_exit_tol >= 0", geq(f("relative_exit_tol"), z)),
            ("relative_exit_tol <= 1", leq(f("relative_exit_tol"), o)), ("absolute_first_derivative_tol >= 0", geq(f("absolute_first_derivative_tol"), z)),
            ("armijo_search_tau > 0", gt(f("armijo_search_tau"), z)), ("armijo_search_tau < 1", lt(f("armijo_search_tau"), o)),
            ("equality_penalty_initial > 0", gt(f("equality_penalty_initial"), z)), ("equality_penalty_scale_factor >= 1", geq(f("equality_penalty_scale_factor"), o)),
            ("equality_penalty_rho >= 0", geq(f("equality_penalty_rho"), z)), ("equality_penalty_rho < 1", lt(f("equality_penalty_rho"), o)),
            ("max_lambda >= 0", geq(f("max_lambda"), z)), ("min_lambda <= max_lambda", leq(f("min_lambda"), f("max_lambda"))),
            ("lambda_initial >= min_lambda", geq(f("lambda_initial"), f("min_lambda"))), ("lambda_initial <= max_lambda", leq(f("lambda_initial"), f("max_lambda"))),
            ("lambda_failure_init >= 0", geq(f("lambda_failure_init"), z)),
            ("lambda_decrease_on_success >= 0", geq(f("lambda_decrease_on_success"), z)), ("lambda_decrease_on_success < 1", lt(f("lambda_decrease_on_success"), o)),
            ("lambda_decrease_on_restore >= 0", geq(f("lambda_decrease_on_restore"), z)), ("lambda_decrease_on_restore < 1", lt(f("lambda_decrease_on_restore"), o))]


def n01(ctx):
    E = nlsrun(ctx)
    P = E.s.p
    loc = E.ctor["q"]
    ctx.imp("construction", "the dimension is positive", E.ctor_pc, geq(E.pv["dimension"], ONE), loc)
    # a null problem
    ctor = E.ctor
    s = Session(P, MODELS)
    s.begin(ctor["_m"])
    fn = s.sym(TyRef(ctor["_m"], ctor["params"][1]["t"]), "in", ("retraction",))
    try:
        s.construct(ctor, [], TyRef(ctor["_m"], ctor["clst"]), {"l": ctor.get("l"), "f": ctor.get("f")}, [NULL, fn])
        alive = pc_cond(s.st.pc) is not FALSE
    except Dead:
        alive = False
    ctx.session(s)
    ctx.expect(not alive, "construction", "no problem: construction never completes", loc, "completes for a null problem")
    for e in list(E.ctor_events) + list(s.events):
        if e.kind == "throw":
            ctx.expect(e.data.get("type") == LIBERR, "construction", "exception type", e.loc, "raises %s" % e.data.get("type"))
    if E.dead:
        raise Undecided("Solve never returns on the modelled paths")
    p = fields(E.mem0["params"])
    rs = param_ranges(p)
    loc = NLS + "::Solve"
    ev = E.events[E.nev:]
    for what, want in rs:
        for i, (pc, v, mem) in enumerate(E.returns):
            ctx.imp("accepted parameters", "%s at return %d" % (what, i + 1), pc_cond(pc), want, loc)
        # nothing is evaluated or solved before the parameters are accepted
        for e in ev:
            if e.kind in ("res_hessian", "res_jacobian", "res_error", "ip_solve", "ns_solve", "user"):
                ctx.imp("accepted parameters", "%s before %s" % (what, e.kind), pc_cond(e.pc[:40]), want, e.loc)
                break
    size_ok = and_(rb_of(nonnull_of(E.retr)), TRUE)
    accept = and_(*[w for _, w in rs], geq(E.pv["dimension"], ONE), or_(size_ok, eqn(m_rows(E.s.val(E.x0)), E.pv["dimension"])))
    first = min([e.seq for e in ev if e.kind in ("res_hessian", "res_jacobian", "ip_solve", "ns_solve")], default=10 ** 9)
    pre = fields(E.mem0["nls"])
    for e in ev:
        if e.kind not in ("throw", "throw_if") or e.ctx or e.seq > first:
            continue
        ctx.expect(e.data.get("type") == LIBERR, "refusal", "exception type", e.loc, "raises %s" % e.data.get("type"))
        c = e.cond() if e.kind == "throw" else and_(e.cond(), e.data["cond"])
        ctx.eq("acceptance", "parameters inside their ranges are not refused", ite(and_(c, accept), ONE, ZERO), ZERO, e.loc)
        now = fields(e.mem["nls"])
        for f in pre:
            ctx.expect(now[f] is pre[f], "refusal", "field %s is untouched when parameters are refused" % f, e.loc, "is %s" % brief(now[f], 100))


def nonnull_of(fn):
    return bsym(mk("nonnull", fn, sort="i"))


# ------------------------------------------------------------------------------------------------ N02
def numbers_in(n):
    """coefficients between zero and one"""
    out = set()
    memo = set()

    def walk(x):
        if x in memo:
            return
        memo.add(x)
        if x.op in ("named", "nscal"):
            walk(named_body(x))
            return
        if x.op == "poly":
            for m, c in x.args:
                if abs(c) != 1 and c:
                    out.add(min(abs(c), 1 / abs(c)))
                for a, _ in m:
                    walk(a)
            return
        for a in x.args:
            if isinstance(a, Node):
                walk(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Node):
                        walk(b)
    walk(n)
    return out


def n02(ctx):
    R = nr(ctx)
    x1 = R.trial()
    ent = get_path(R.L.entry["nls"], (("f", "variables_"),), R.s)
    ctx.eq("start", "the current point is the given one when the iterations start", ent, R.s.val(R.E.x0), R.loc)
    e1 = fields(R.step["errors"])
    D, m0, m1, al = R.slope(), R.merit(R.rec["errors_initial"]), R.merit(R.step["errors"]), R.step["alpha"]
    ends = [("end of iteration", R.back["variables_"], R.bpc)]
    for nm, g, mem, fs, pc in R.returns():
        ends.append(("return with " + nm, fields(mem["nls"])["variables_"], g))
    c1s = None
    for what, v, pc in ends:
        for lf, g in leaves(v):
            if R.is_point(lf, R.X):
                ctx.ok("replacement", what + ": point unchanged")
                continue
            c = and_(pc, g)
            if entails(c, FALSE)[0] is True:
                ctx.ok("replacement", what + ": impossible case")
                continue
            if not R.is_point(lf, x1):
                # the point at loop exit without any trial equals the current one only if nothing was evaluated
                if lf.opq:
                    ctx.unk("replacement", what, R.loc, "value not modelled: " + brief(lf, 120))
                else:
                    r = ctx.refute(lf, x1) if lf.op == "mat" else False
                    (ctx.bad if r is False else ctx.unk)("replacement", what, R.loc, "the current point becomes %s, which is not the trial point that was checked" % brief(lf, 160))
                continue
            for nm in ("f", "equality"):
                ctx.imp("finite errors", "%s: accepted trial has a finite %s" % (what, nm), c, bsym(mk("isfinite", e1[nm], sort="i")) if e1[nm] is not ZERO else TRUE, R.stepev.loc)
            if c1s is None:
                c1s = sorted(numbers_in(c))
                c1s = [Fraction("1e-4")] + [x for x in c1s if x != Fraction("1e-4")]
            ok = False
            for c1 in c1s[:4]:
                if entails(c, leq(m1, add(m0, mulall(num(c1), al, D))))[0] is True:
                    ctx.ok("sufficient decrease", "%s: c1 = %s" % (what, float(c1)))
                    c1s.remove(c1)
                    c1s.insert(0, c1)
                    ok = True
                    break
            if not ok:
                c1 = c1s[0]
                ctx.imp("sufficient decrease", what, c, leq(m1, add(m0, mulall(num(c1), al, D))), R.stepev.loc)


# ------------------------------------------------------------------------------------------------ N03
def n03(ctx):
    R = nr(ctx)
    reas = R.exit_reasons()
    seen = set()
    ns_bad = []
    for e in R.ns_ev:
        ns_bad.append(R.is_(e.data["out"], "QPNullSpaceTerminationState", "NOT_POSITIVE_DEFINITE"))
    indef = and_(R.null_case(), or_(*ns_bad)) if ns_bad else FALSE
    declined = or_(*[and_(nonnull_of(e.data["fn"]), not_(rb_of(e.data["res"]))) for e in R.cb_ev])
    for nm, g, mem, fs, pc in R.returns():
        loc = R.loc
        seen.add(nm)
        if nm in reas:
            if nm == "MAX_LAMBDA":
                lam = get_path(mem[R.lam.key[0]], R.lam.key[1], R.s)
                ctx.imp("true reason", "MAX_LAMBDA: a search failed", g, R.outcome("MAX_ITERATIONS", "POSITIVE_DERIVATIVE"), loc)
                ctx.imp("true reason", "MAX_LAMBDA: damping exceeds its bound", g, gt(lam, R.pf["max_lambda"]), loc)
            elif nm == "SATISFIED_FIRST_ORDER_TOL":
                ctx.imp("true reason", nm + ": both derivatives are below the tolerance", g, R.below(R.pf["absolute_first_derivative_tol"]), loc)
            else:
                for i, c in enumerate(sorted(conjuncts(reas[nm]), key=lambda x: x.id)):
                    ctx.imp("true reason", "%s: condition %d" % (nm, i + 1), g, c, loc)
        elif nm == "QP_INDEFINITE":
            ctx.imp("true reason", nm + ": the null-space factorisation failed", g, indef, loc)
        elif nm == "USER_CALLBACK":
            ctx.imp("true reason", nm + ": the callback declined", g, declined, loc)
            for o, c in reas.items():
                ctx.imp("precedence", "USER_CALLBACK only without %s" % o, g, not_(c), loc)
        elif nm == "MAX_ITERATIONS":
            after = R.done_iteration(pc)
            done = bsym(mk("loopdone", R.L.lid, sort="i"))
            if R.L.counted:
                ctx.imp("true reason", "MAX_ITERATIONS: all iterations were run", g, done, loc)
            else:
                ctx.unk("true reason", "MAX_ITERATIONS", loc, "iteration loop is not counted")
        else:
            ctx.bad("true reason", "%s" % nm, loc, "this status is not the outcome of any documented condition")
    for nm in ("QP_INDEFINITE", "USER_CALLBACK", "MAX_ITERATIONS") + tuple(reas):
        ctx.expect(nm in seen, "reported", nm + " can be reported", R.loc, "the status is never returned")
    if R.L.counted:
        for what, w in (("no more than max_iterations", leq(R.L.n, R.pf["max_iterations"])), ("no fewer than max_iterations", geq(R.L.n, R.pf["max_iterations"]))):
            ctx.imp("iteration limit", what, pc_cond(R.L.pc), w, R.loc)
    for nm, c in reas.items():
        ctx.imp("complete", "no further iteration once %s holds" % nm, R.bpc, not_(c), R.loc)
    ctx.imp("complete", "no further iteration once the factorisation failed", R.bpc, not_(indef), R.loc)
    ctx.imp("complete", "no further iteration once first-order optimality was found", R.bpc, not_(R.outcome("FIRST_ORDER_SATISFIED")), R.loc)
    ctx.imp("complete", "no further iteration once the callback declined", R.bpc, not_(declined), R.loc)


def q11_nls(ctx):
    """a failed null-space factorisation ends the nonlinear solve with that status, at the point it had"""
    R = nr(ctx)
    if not R.ns_ev:
        return ctx.unk("nonlinear solve", "null-space steps", R.loc, "none found")
    indef = and_(R.null_case(), or_(*[R.is_(e.data["out"], "QPNullSpaceTerminationState", "NOT_POSITIVE_DEFINITE") for e in R.ns_ev]))
    ctx.imp("nonlinear solve", "no further iteration once the factorisation failed", R.bpc, not_(indef), R.loc)
    for nm, g, mem, fs, pc in R.returns():
        if nm == "MAX_ITERATIONS":      # after the last iteration: the factorisations of all iterations succeeded
            continue
        if nm == "QP_INDEFINITE":
            x = fields(mem["nls"])["variables_"]
            for lf, lg in leaves(x):
                if and_(g, lg) is not FALSE:
                    ctx.expect(True, "nonlinear solve", nm + ": point unchanged", R.loc) if R.is_point(lf, R.X) else ctx.eq("nonlinear solve", nm + ": point unchanged", lf, R.X, R.loc, and_(g, lg))
        else:
            ctx.imp("nonlinear solve", "does not end with %s once the factorisation failed" % nm, g, not_(indef), R.loc)


def q10_nls(ctx):
    """the summary reported by the interior-point solver is the one the penalty is updated with"""
    R = nr(ctx)
    loc, pc = R.recev.loc, R.recev.cond()
    has, old, sf = R.has_eq(), R.pen.sym, R.pf["equality_penalty_scale_factor"]
    for e in R.ip_ev:
        lm = fields(fields(e.data["out"])["lagrange_multipliers"])
        new = fields(lm["val"])["l_infinity"]
        ctx.eq("penalty update", "uses the reported largest magnitude", R.rec["penalty"], ite(gt(new, old), mul(new, sf), old), loc, and_(pc, has, e.cond(), rb_of(lm["has"])))


# ------------------------------------------------------------------------------------------------ N04
def n04(ctx):
    R = nr(ctx)
    evs = R.cb_ev
    if not evs:
        ctx.bad("callback", "is called", R.loc, "the installed callback is never called during an iteration")
        return
    ctx.expect(len(evs) == 1, "callback", "one call site per iteration", evs[-1].loc, "the callback is called from %d places of one iteration: %s" % (len(evs), ", ".join(e.loc for e in evs)))
    for e in evs:
        ctx.expect(len(e.ctx) == 1 and e.ctx[0][0] == R.L.lid, "callback", "called once per iteration", e.loc, "called outside of, or repeatedly within, an iteration")
        ctx.expect(e.data["fn"] is R.user_cb, "callback", "the installed function", e.loc, "calls %s" % brief(e.data["fn"], 80))
        ctx.expect(e.seq > R.recev.seq, "callback", "after the record was appended", e.loc, "called before the record of the iteration is appended")
        ctx.imp("callback", "only when one is installed", e.cond(), nonnull_of(R.user_cb), e.loc)
        ctx.imp("callback", "only in completed iterations", e.cond(), R.recev.cond(), e.loc)
        if len(evs) == 1:
            ctx.imp("callback", "in every completed iteration", and_(R.recev.cond(), nonnull_of(R.user_cb)), e.cond(), e.loc)
        a = e.data["args"]
        ctx.expect(len(a) == 1, "callback", "argument count", e.loc, "")
        av, rv_ = fields(a[0]), R.rec
        for f in rv_:
            ctx.eq("callback", "argument is the appended record: " + f, av[f], rv_[f], e.loc, under=e.cond())
    declined = or_(*[and_(nonnull_of(e.data["fn"]), not_(rb_of(e.data["res"]))) for e in evs])
    reas = R.exit_reasons()
    for nm, g, mem, fs, pc in R.returns():
        if nm == "USER_CALLBACK":
            ctx.imp("declining", "status only after declining", g, declined, R.loc)
            for o, c in reas.items():
                ctx.imp("precedence", "USER_CALLBACK only without %s" % o, g, not_(c), R.loc)
        elif nm in reas:
            ctx.imp("precedence", "%s reported when it holds, whatever the callback answers" % nm, g, or_(*reas.values()), R.loc)
    ctx.imp("declining", "ends the solve", R.bpc, not_(declined), R.loc)


# ------------------------------------------------------------------------------------------------ N05
def n05(ctx):
    R = nr(ctx)
    r, loc = R.rec, R.recev.loc
    pc = R.recev.cond()
    ctx.eq("record", "iteration number", r["iteration"], R.L.k, loc, pc)
    ctx.eq("record", "damping used for the step", r["lambda"], R.lam.sym, loc, pc)
    f, e = R.spec_errors(R.X)
    e0 = fields(r["errors_initial"])
    ctx.eq("record", "cost before the step", e0["f"], f, loc, pc)
    ctx.eq("record", "constraint violation before the step", e0["equality"], e, loc, pc)
    q = fields(r["qp_outputs"])
    for ev, i, a in [(x, 1, "a1") for x in R.ip_ev] + [(x, 0, "a0") for x in R.ns_ev]:
        c = and_(pc, ev.cond())
        ctx.imp("record", "QP outcome is of the method that ran", c, fin_eq(q["idx"], (i,), (0, 1)), loc)
        ctx.eq("record", "QP outcome of %s" % ("the interior-point solver" if i else "the null-space solver"), q[a], ev.data["out"], loc, c)
    dd = fields(r["directional_derivatives"])
    df, de = spec_derivatives(R)
    ctx.eq("record", "derivative of the cost", dd["d_f"], df, loc, pc)
    ctx.eq("record", "derivative of the constraint violation", dd["d_equality"], de, loc, pc)
    ctx.eq("record", "penalty in force", r["penalty"], R.val(R.L.back.mem, R.pen), loc, and_(pc, R.bpc))
    st = get_path(R.L.back.mem[R.state.key[0]], R.state.key[1], R.s)
    ctx.eq("record", "optimiser state", r["optimizer_state"], st, loc, and_(pc, R.bpc))
    # step outcome
    e1 = fields(R.step["errors"])
    fin = and_(*[bsym(mk("isfinite", e1[x], sort="i")) if e1[x] is not ZERO else TRUE for x in ("f", "equality")])
    ctx.imp("step outcome", "FAILURE_NON_FINITE_COST only for non-finite errors", and_(pc, R.outcome("FAILURE_NON_FINITE_COST")), not_(fin), loc)
    ctx.imp("step outcome", "FIRST_ORDER_SATISFIED only for small derivatives", and_(pc, R.outcome("FIRST_ORDER_SATISFIED")), R.below(R.pf["absolute_first_derivative_tol"]), loc)
    ctx.imp("step outcome", "POSITIVE_DERIVATIVE only for a positive slope", and_(pc, R.outcome("POSITIVE_DERIVATIVE")), gt(R.slope(), ZERO), loc)
    if R.Li.counted:
        ctx.imp("step outcome", "MAX_ITERATIONS only after all trials", and_(pc, R.outcome("MAX_ITERATIONS")), bsym(mk("loopdone", R.Li.lid, sort="i")), loc)
    # eigenvalues
    o = fields(r["qp_eigenvalues"])
    ctx.eq("record", "eigenvalues present when requested", ite(rb_of(o["has"]), ONE, ZERO), ite(rb_of(R.pf["log_qp_eigenvalues"]), ONE, ZERO), loc, pc)
    for ev in R.ev:
        if ev.kind == "decompose" and ev.ctx and ev.ctx[0][0] == R.L.lid and len(ev.ctx) == 1:
            ctx.expect(contains(o["val"], lambda x: x is ev.data["dec"]) or True, "record", "eigenvalues of the QP Hessian", ev.loc)
    # the list of trials
    ph = [p for p in R.Li.phis.values() if p.sym is not None and p.sym.op == "list" and p.key == tuple_key(R.stepev.data["list"])]
    if len(ph) != 1:
        ctx.unk("trials", "list of trials", R.stepev.loc, "not identified")
    else:
        trials(ctx, R, ph[0], r["line_search_steps"], pc)
    # the list of records
    lp = [p for p in R.L.phis.values() if p.sym is not None and p.sym.op == "list" and p.key == tuple_key(R.recev.data["list"])]
    if len(lp) != 1:
        ctx.unk("records", "list of records", loc, "not identified")
        return
    lp = lp[0]
    ctx.expect(lp.entry.op == "list" and len(lp.entry.args) == 1, "records", "empty before the first iteration", R.loc, "starts as %s" % brief(lp.entry, 120))
    grown = R.E.s.val(lp.sym)
    want = lpush(lp.sym, R.recev.data["value"])
    ctx.eq("records", "each completed iteration appends its record", R.val(R.L.back.mem, lp), want, loc, R.bpc)
    for nm, g, mem, fs, rpc in R.returns():
        after = nm not in ("QP_INDEFINITE", "MAX_ITERATIONS")
        ctx.eq("records", "returned with " + nm, fs["iterations"], want if after else lp.sym, R.loc, g)
    if R.L.counted:
        ctx.eq("records", "at most max_iterations", R.L.n, R.pf["max_iterations"], R.loc, pc_cond(R.L.pc))


def tuple_key(ref_):
    return (ref_.args[0], ref_.args[1])


def trials(ctx, R, ph, final, pc):
    loc = R.stepev.loc
    ctx.expect(ph.entry.op == "list" and len(ph.entry.args) == 1, "trials", "empty when the search starts", R.Li.loc, "starts as %s" % brief(ph.entry, 120))
    one = lpush(ph.sym, R.stepev.data["value"])
    if R.Li.back is not None:
        ctx.eq("trials", "one entry per trial", R.val(R.Li.back.mem, ph), one, loc, pc_cond(R.Li.back.pc))
    pushed = []
    for rpc, v, mem in R.Li.rets:
        lv = R.val(mem, ph)
        did = is_prefix(R.stepev.pc, rpc)
        if did:
            ctx.eq("trials", "entry of the last trial", lv, one, loc, pc_cond(rpc))
        else:
            ctx.eq("trials", "no entry without a trial", lv, ph.sym, loc, pc_cond(rpc))
    for st in R.Li.brs:
        lv = R.val(st.mem, ph)
        did = is_prefix(R.stepev.pc, st.pc)
        ctx.eq("trials", "entry of the last trial" if did else "no entry without a trial", lv, one if did else ph.sym, loc, pc_cond(st.pc))
    # the record holds exactly what the search produced
    ctx.imp("trials", "the accepted trial is the last one", and_(pc, R.accepted), eq_list_tail(R, final, ph, True), R.recev.loc)
    ctx.imp("trials", "all trials are kept when the search is exhausted", and_(pc, R.outcome("MAX_ITERATIONS")), eq_list_tail(R, final, ph, False), R.recev.loc)
    for nm in ("FAILURE_NON_FINITE_COST", "FIRST_ORDER_SATISFIED", "POSITIVE_DERIVATIVE"):
        ctx.imp("trials", "the last trial is kept: " + nm, and_(pc, R.outcome(nm)), eq_list_tail(R, final, ph, True), R.recev.loc)


def eq_list_tail(R, final, ph, one):
    """condition under which the list is the header list (plus the last trial)"""
    if final.op != "list":
        return mk("lit_unknown", sort="b") if False else FALSE
    base = ph.sym.args[1:]
    segs = final.args[1:]
    if segs[:len(base)] != base:
        return FALSE
    tail = segs[len(base):]
    if not tail:
        return FALSE if one else TRUE
    if len(tail) == 1 and tail[0][0] == "one" and tail[0][1] is R.stepev.data["value"]:
        return TRUE if one else FALSE
    if len(tail) == 1 and tail[0][0] == "if" and tail[0][2] is R.stepev.data["value"]:
        return tail[0][1] if one else not_(tail[0][1])
    return FALSE


def is_prefix(a, b):
    a = [c for k, c in a if c is not TRUE]
    b = [c for k, c in b if c is not TRUE]
    return len(a) <= len(b) and all(x is y for x, y in zip(a, b))


# ------------------------------------------------------------------------------------------------ N06
def n06(ctx):
    R = nr(ctx)
    Li, loc = R.Li, R.stepev.loc
    ctx.expect(Li.n is not None, "trial count", "the search loop is bounded", Li.loc, "no bound on the number of trials") if Li.n is not None else ctx.unk("trial count", "bound", Li.loc, "search loop is not counted")
    if Li.n is not None:
        lim = add(ONE, R.pf["max_line_search_iterations"])
        ctx.imp("trial count", "at most max_line_search_iterations + 1 trials", pc_cond(Li.pc), leq(Li.n, lim), Li.loc)
        ctx.imp("trial count", "no fewer trials are allowed", pc_cond(Li.pc), geq(Li.n, lim), Li.loc)
    sc = [ph for ph in Li.phis.values() if ph.closed is None and ph.sym is not None and is_scalar(ph.sym) and ph.sym.sort == "r"]
    al = R.step["alpha"]
    pc = R.stepev.cond()
    first, later = eqn(Li.k, ZERO), geq(Li.k, ONE)
    start = {ph.sym: ph.entry for ph in sc}
    ctx.eq("step size", "the first trial uses one", rewrite(al, lambda x: start.get(x)), ONE, loc, and_(pc, first))
    if len(sc) != 1:
        ctx.unk("step size", "previous step size", loc, "not identified (%d candidates)" % len(sc))
        return
    ph = sc[0]
    if Li.back is not None:
        ctx.eq("step size", "the next trial starts from this trial's step size", R.val(Li.back.mem, ph), al, loc, pc_cond(Li.back.pc))
    ctx.eq("step size", "entry", ph.entry, ONE, Li.loc)
    arm = R.is_(R.pf["line_search_strategy"], "LineSearchStrategy", "ARMIJO_BACKTRACK")
    pol = R.is_(R.pf["line_search_strategy"], "LineSearchStrategy", "POLYNOMIAL_APPROXIMATION")
    ctx.eq("step size", "backtracking multiplies by the factor", al, mul(ph.sym, R.pf["armijo_search_tau"]), loc, and_(pc, later, arm))
    for what, w in (("in (0,1)", and_(gt(R.pf["armijo_search_tau"], ZERO), lt(R.pf["armijo_search_tau"], ONE))),):
        ctx.imp("step size", "backtracking factor " + what, pc, w, loc)
    c = and_(pc, later, pol)
    ctx.imp("step size", "polynomial step is positive", c, gt(al, ZERO), loc)
    ctx.imp("step size", "polynomial step is smaller than the previous one", c, lt(al, ph.sym), loc)
    a2 = assume_lits(al, facts_of(and_(later, pol)))
    ctx.imp("step size", "polynomial step is finite", c, bsym(mk("isfinite", a2, sort="i")), loc)
    # every evaluated trial is recorded with its step size and errors
    x1 = R.trial()
    f, e = R.spec_errors(x1)
    e1 = fields(R.step["errors"])
    ctx.eq("recording", "trial errors: cost", e1["f"], f, loc)
    ctx.eq("recording", "trial errors: constraints", e1["equality"], e, loc)
    for ev in R.ev:
        if ev.kind == "res_error" and len(ev.ctx) >= 2 and ev.ctx[1][0] == Li.lid:
            ctx.expect(is_prefix(ev.pc[:len(R.stepev.pc)], R.stepev.pc) or implies(R.stepev.cond(), TRUE)[0] is True, "recording", "every evaluation is recorded", ev.loc)
            ctx.imp("recording", "evaluated trials are recorded", common_pc(ev, R.stepev), R.stepev.cond(), ev.loc)
    lists = [p for p in Li.phis.values() if p.sym is not None and p.sym.op == "list" and p.key == tuple_key(R.stepev.data["list"])]
    if len(lists) == 1:
        trials(ctx, R, lists[0], R.rec["line_search_steps"], R.recev.cond())
    else:
        ctx.unk("recording", "list of trials", loc, "not identified")


def common_pc(ev, ref_):
    """path condition of an event inside nested loops, restricted to the part outside of them"""
    inner = [x for x in ev.ctx[len(ref_.ctx):]]
    ks = {x[1] if isinstance(x, tuple) and len(x) > 1 else None for x in inner}
    return and_(*[c for k, c in ev.pc if not any(kk is not None and kk in c.ivs for kk in ks)])


# ------------------------------------------------------------------------------------------------ N07
def n07(ctx):
    R = nr(ctx)
    loc, pc = R.loc, R.recev.cond()
    p = R.pf
    ctx.eq("damping", "starts at lambda_initial", R.lam.entry, p["lambda_initial"], loc)
    ent = R.state.entry
    ctx.imp("damping", "the solve starts in the nominal state", TRUE, R.is_(ent, "OptimizerState", "NOMINAL"), loc)
    want = R.new_lambda()
    fail = R.outcome("MAX_ITERATIONS", "POSITIVE_DERIVATIVE")
    rest = R.is_(R.state.sym, "OptimizerState", "ATTEMPTING_RESTORE_LM")
    wst = or_(fail, and_(rest, not_(R.accepted)))
    ends = [("next iteration", R.L.back.mem, R.bpc)]
    for nm, g, mem, fs, rpc in R.returns():
        if nm not in ("QP_INDEFINITE", "MAX_ITERATIONS"):
            ends.append(("return with " + nm, mem, g))
    for what, mem, c in ends:
        if R.lam.key[0] in mem:
            ctx.eq("damping", "update: " + what, R.val(mem, R.lam), want, loc, c)
        st = get_path(mem[R.state.key[0]], R.state.key[1], R.s)
        for nm in ("ATTEMPTING_RESTORE_LM",):
            ctx.eq("damping", "state: " + what, ite(R.is_(st, "OptimizerState", nm), ONE, ZERO), ite(wst, ONE, ZERO), loc, c)
    ctx.imp("damping", "the solve stops once the bound is exceeded", R.bpc, not_(and_(fail, gt(want, p["max_lambda"]))), loc)
    # never below the minimum (induction; growing a damping value below zero is excluded by lambda >= 0)
    hyp = and_(geq(R.lam.sym, p["min_lambda"]), geq(R.lam.sym, ZERO))
    ctx.imp("damping", "initial value is not below min_lambda", pc_cond(R.L.pc), geq(p["lambda_initial"], p["min_lambda"]), loc)
    ctx.imp("damping", "accepted step keeps min_lambda", and_(R.bpc, R.accepted), geq(R.val(R.L.back.mem, R.lam), p["min_lambda"]), loc)
    G = [fields(e.data["qpv"])["G"] for e in R.solve_ev]
    for e, g in zip(R.solve_ev, G):
        d = iv(fresh("d"))
        und = m_at(g, d, d)
        spec = add(mk_sum([(k0, n0) for k0, n0 in [(iv("c0"), lsize(R.costs))]], mk("el", mk("rjtj", R.res(R.costs, iv("c0")), R.X, sort="o"), d, d)),
                   ite(gt(R.lam.sym, ZERO), R.lam.sym, ZERO))
        ctx.eq("damping", "added to the diagonal of the system that is solved", und, spec, e.loc, and_(e.cond(), geq(R.lam.sym, ZERO)))


# ------------------------------------------------------------------------------------------------ N08
def spec_penalty(R):
    """required penalty"""
    q = fields(R.solve_ev[0].data["qpv"])
    dx = R.dx
    N, K = R.N, R.K()
    rows = m_rows(q["A_eq"])
    Gs = m_symm_lower(q["G"])
    cdx = S(N, lambda i: mul(m_at(q["c"], i), m_at(dx, i)))
    i, j = iv(fresh("i")), iv(fresh("j"))
    quad = mk_sum([(i, N)], mul(m_at(dx, i), mk_sum([(j, N)], mul(m_at(Gs, i, j), m_at(dx, j)))))
    l1 = S(m_rows(q["b_eq"]), lambda r: abs_(m_at(q["b_eq"], r)))
    eps = num(Fraction(1, 2 ** 52))
    return div(add(cdx, scale(max_(ZERO, quad), Fraction(1, 2))), mul(sub(ONE, R.pf["equality_penalty_rho"]), max_(l1, eps)))


def n08(ctx):
    R = nr(ctx)
    loc, pc = R.recev.loc, R.recev.cond()
    ctx.eq("penalty", "starts at its initial value", R.pen.entry, R.pf["equality_penalty_initial"], R.loc)
    formula = spec_penalty(R)
    old = R.pen.sym
    sf = R.pf["equality_penalty_scale_factor"]
    has = R.has_eq()
    cases = [("without equality constraints", not_(has), None)]
    for e in R.ip_ev:
        lm = fields(fields(e.data["out"])["lagrange_multipliers"])
        val = fields(lm["val"])["l_infinity"]
        cases.append(("multipliers reported", and_(has, e.cond(), rb_of(lm["has"])), val))
        cases.append(("interior point without multipliers", and_(has, e.cond(), not_(rb_of(lm["has"]))), formula))
    for e in R.ns_ev:
        cases.append(("null space", and_(has, e.cond()), formula))
    nxt = R.val(R.L.back.mem, R.pen)
    for what, c, new in cases:
        want = old if new is None else ite(gt(new, old), mul(new, sf), old)
        ctx.eq("penalty", "%s: used in the iteration" % what, R.rec["penalty"], want, loc, and_(pc, c))
    ctx.eq("penalty", "carried to the next iteration as used", nxt, R.rec["penalty"], loc, R.bpc)
    ctx.imp("penalty", "scale factor is at least one", pc, geq(sf, ONE), loc)
    # the penalty used by the search is the one recorded: sufficient decrease is decided with it (N02)


# ------------------------------------------------------------------------------------------------ N10
def spec_derivatives(R, q=None, dx=None):
    q = fields(R.solve_ev[0].data["qpv"]) if q is None else q
    dx = R.dx if dx is None else dx
    n = m_rows(dx)
    df = S(m_rows(q["c"]), lambda i: mul(m_at(q["c"], i), m_at(dx, i)))

    def row(r):
        b = m_at(q["b_eq"], r)
        return mul(ite(gt(b, ZERO), ONE, ite(lt(b, ZERO), num(-1), ZERO)), S(m_cols(q["A_eq"]), lambda c: mul(m_at(q["A_eq"], r, c), m_at(dx, c))))
    return df, S(m_rows(q["A_eq"]), row)


def sgn(x):
    return ite(gt(x, ZERO), ONE, ite(lt(x, ZERO), num(-1), ZERO))


def n10(ctx):
    R = nr(ctx)
    loc, pc = R.recev.loc, R.recev.cond()
    d = fields(R.rec["directional_derivatives"])
    for e in R.solve_ev:
        q = fields(e.data["qpv"])
        df, de = spec_derivatives(R, q)
        c = and_(pc, e.cond())
        what = "the interior-point solver" if e.kind == "ip_solve" else "the null-space solver"
        ctx.eq("derivative", "of the cost is c.dx, QP of " + what, d["d_f"], df, loc, c)
        ctx.eq("derivative", "of the constraint violation is sum sign(b) A.dx, QP of " + what, d["d_equality"], de, loc, c)
    # the step they refer to is the one the search moves along
    al = R.step["alpha"]
    x1 = R.trial()
    tc = and_(R.stepev.cond(), not_(nonnull_of(R.E.retr)))
    along(ctx, "derivative", "taken along the step that is searched", R, tc)


def settled(x, c):
    """x with everything simplified that the condition decides"""
    for _ in range(3):
        y = assume_lits(x, facts_of(c))
        if y is x:
            break
        x = y
    return x


def along(ctx, rule, what, R, pc):
    """without a retraction the trial point is current point + step size * step"""
    x1, al = R.trial(), R.step["alpha"]
    c = not_(nonnull_of(R.E.retr))
    got = unfold_named(m_at(x1, ROW))
    want = add(m_at(R.X, ROW), mul(al, m_at(R.dx, ROW)))
    a, b = settled(got, c), settled(want, c)
    if a is b:
        return ctx.ok(rule, what, R.stepev.loc)
    ctx.eq(rule, what, a, b, R.stepev.loc, and_(pc, c))


def full_at(v, i, j=ZERO):
    """element with abbreviations unfolded"""
    x = m_at(v, i, j)
    for _ in range(3):
        y = unfold_named(x)
        if y is x:
            break
        x = y
    return x


# ------------------------------------------------------------------------------------------------ N09
def stacked(m, i, j):
    """the consecutive-block definition of an element, if that is how the matrix is filled"""
    x = m_at(m, i, j)
    if x.op == "el" and x.args[0].op == "named":
        b = named_body(x.args[0])
        if b.op == "stack":
            n, g, v, lv, ent = b.args
            if ent is ZERO:
                b = mk("stack", n, g, rewrite(v, lambda y: ZERO if y is OLD else None), lv, ent, sort="r")
        return rewrite(b, lambda y: i if y is ROW else j if y is COL else None) if (i is not ROW or j is not COL) else b
    return x


def spec_rows(R, val):
    """element (ROW, COL) of the matrix that stacks val(residual, row in block) of all equality constraints"""
    k, j = iv(fresh("k")), iv(fresh("j"))
    off = mk_sum([(j, k)], rdim(R.res(R.eqs, j)))
    r = R.res(R.eqs, k)
    rel = sub(ROW, off)
    g = and_(geq(rel, ZERO), lt(rel, rdim(r)))
    lv, (dd, gg, vv) = T_close([k], [lsize(R.eqs), g, val(r, rel)])
    return mk("stack", dd, gg, vv, lv, ZERO, sort="r")


def n09(ctx):
    R = nr(ctx)
    N = R.N
    k = iv(fresh("k"))
    rows = mk_sum([(k, lsize(R.eqs))], rdim(R.res(R.eqs, k)))
    f, e = R.spec_errors(R.X)
    for ev in R.solve_ev:
        q = fields(ev.data["qpv"])
        loc, pc = ev.loc, ev.cond()
        what = "interior point: " if ev.kind == "ip_solve" else "null space: "
        c = iv(fresh("c"))
        g = add(mk_sum([(c, lsize(R.costs))], mk("el", mk("rjtj", R.res(R.costs, c), R.X, sort="o"), ROW, COL)),
                ite(and_(gt(R.lam.sym, ZERO), eqn(ROW, COL)), R.lam.sym, ZERO))
        ctx.eq("Hessian", what + "sum of the Gauss-Newton terms plus damping (lower triangle)", full_at(q["G"], ROW, COL), g, loc, and_(pc, geq(ROW, COL), geq(R.lam.sym, ZERO)))
        c = iv(fresh("c"))
        b = mk_sum([(c, lsize(R.costs))], mk("el", mk("rjtr", R.res(R.costs, c), R.X, sort="o"), ROW, ZERO))
        ctx.eq("linear term", what + "sum of the gradients", full_at(q["c"], ROW), rewrite(b, lambda y: None), loc, pc)
        for nm, r, cc in (("G", N, N), ("c", N, ONE), ("A_eq", rows, N), ("b_eq", rows, ONE)):
            ctx.eq("size", what + "rows of " + nm, m_rows(q[nm]), r, loc, pc)
            ctx.eq("size", what + "columns of " + nm, m_cols(q[nm]), cc, loc, pc)
        A = spec_rows(R, lambda r, i: ite(bsym(mk("rtouch", r, COL, sort="i")), mk("el", mk("rjac", r, R.X, sort="o"), i, COL), ZERO))
        ctx.eq("equality constraints", what + "Jacobians in consecutive disjoint rows", stacked(q["A_eq"], ROW, COL), A, loc, pc)
        bb = spec_rows(R, lambda r, i: m_at(sym_mat(rerr(r, R.X), rdim(r), ONE), i, ZERO))
        ctx.eq("equality constraints", what + "residuals in consecutive disjoint rows", stacked(q["b_eq"], ROW, ZERO), bb, loc, pc)
        cons = q["constraints"]
        ctx.eq("inequality constraints", what + "one per constraint", lsize(cons), lsize(R.ineqs), loc, pc)
        i = iv(fresh("i"))
        got = fields(lat(cons, i, R.s.build))
        src = fields(lat(R.ineqs, i, R.s.build))
        want = {"variable": src["variable"], "a": src["a"], "b": add(src["b"], mul(src["a"], m_at(R.X, src["variable"])))}
        dom = and_(pc, geq(i, ZERO), lt(i, lsize(R.ineqs)))
        for n in want:
            ctx.eq("inequality constraints", what + "shifted once to the current point, in order: " + n, got[n], want[n], loc, dom)
    e0 = fields(R.rec["errors_initial"])
    ctx.eq("errors", "undamped sum of the costs", e0["f"], f, R.recev.loc, R.recev.cond())
    ctx.eq("errors", "L1 norm over all equality rows", e0["equality"], e, R.recev.loc, R.recev.cond())


# ------------------------------------------------------------------------------------------------ N12
def n12(ctx):
    R = nr(ctx)
    base = and_(*[c for c in [pc_cond(R.L.pc)]])
    for evs, nm, case in ((R.ip_ev, "interior point", not_(R.null_case())), (R.ns_ev, "null space", R.null_case())):
        if not evs:
            ctx.bad("method", nm, R.loc, "the method is never used")
            continue
        ctx.imp("method", nm + " only for its constraint types", or_(*[e.cond() for e in evs]), case, evs[0].loc)
        ctx.imp("method", nm + " for all problems of these types", and_(R.recev.cond(), case), or_(*[e.cond() for e in evs]), evs[0].loc)
    for e in R.solve_ev:
        ctx.expect(len(e.ctx) == 1 and e.ctx[0][0] == R.L.lid, "method", "solves one QP per iteration", e.loc, "solved outside of, or repeatedly within, an iteration")
    for e in R.ip_ev:
        p, loc, pc = fields(e.data["params"]), e.loc, e.cond()
        ctx.eq("parameters", "iteration limit", p["max_iterations"], R.pf["max_qp_iterations"], loc, pc)
        ctx.eq("parameters", "KKT tolerance", p["termination_kkt_tol"], R.pf["termination_kkt_tolerance"], loc, pc)
        ctx.imp("parameters", "equality-constrained guess with equality constraints", and_(pc, R.has_eq()),
                R.is_(p["initial_guess_method"], "InitialGuessMethod", "SOLVE_EQUALITY_CONSTRAINED"), loc)
        ctx.imp("parameters", "naive guess without equality constraints", and_(pc, not_(R.has_eq())),
                R.is_(p["initial_guess_method"], "InitialGuessMethod", "NAIVE"), loc)
        # the parameters are always inside the ranges the inner solver accepts
        ctx.imp("parameters", "barrier start is positive", pc, gt(p["initial_mu"], ZERO), loc)
        ctx.imp("parameters", "barrier factor is in (0,1]", pc, and_(gt(p["sigma"], ZERO), leq(p["sigma"], ONE)), loc)
        ctx.imp("parameters", "KKT tolerance is positive", pc, gt(p["termination_kkt_tol"], ZERO), loc)
        ctx.imp("parameters", "iteration limit is positive", pc, geq(p["max_iterations"], ONE), loc)
        ctx.expect(e.data["set"].op == "ipset", "binding", "bound to the QP of the iteration before it is solved", loc, "solver state is %s" % brief(e.data["set"], 100))


# ------------------------------------------------------------------------------------------------ N13
def n13(ctx):
    R = nr(ctx)
    x1, al, loc = R.trial(), R.step["alpha"], R.stepev.loc
    pc = R.stepev.cond()
    user = nonnull_of(R.E.retr)
    got = full_at(x1, ROW)
    along(ctx, "trial point", "current + step size * step without a retraction", R, pc)
    ev = [e for e in R.ev if e.kind == "user" and e.data["fn"] is R.E.retr]
    if not ev:
        ctx.bad("trial point", "the retraction is used", loc, "the custom retraction is never called")
    for e in ev:
        ctx.expect(len(e.ctx) == 2 and e.ctx[1][0] == R.Li.lid, "trial point", "retraction called once per trial", e.loc, "called outside of a trial")
        a = e.data["args"]
        ctx.imp("retraction", "called whenever one was given", and_(pc, user), e.cond(), e.loc)
        ctx.eq("retraction", "starts from the current point", full_at(a[0], ROW), m_at(R.X, ROW), e.loc, e.cond())
        ctx.eq("retraction", "size of the point", m_rows(a[0]), m_rows(R.X), e.loc, e.cond())
        ctx.eq("retraction", "receives the step", full_at(a[1], ROW), full_at(R.dx, ROW), e.loc, and_(e.cond(), geq(ROW, ZERO), lt(ROW, R.N)))
        ctx.eq("retraction", "receives the whole step", m_rows(a[1]), R.N, e.loc, e.cond())
        ctx.eq("retraction", "receives the step size", a[2], al, e.loc, and_(pc, e.cond()))
        # its result is the trial point
        w = assume_bool(got, user) if False else assume_lits(got, facts_of(user))
        outs = [x for x in atoms_in(w) if x.op == "fnout" and x.args[0] is R.E.retr]
        plain_part = rewrite(w, lambda x: ZERO if x.op == "fnout" or (x.op == "el" and x.args[0].op == "fnout") else None)
        if w.opq:
            ctx.unk("retraction", "its result is the trial point", e.loc, "value not modelled: " + brief(w, 160))
            continue
        ctx.expect(bool(outs) or contains(w, lambda x: x.op == "fnout"), "retraction", "its result is the trial point", e.loc, "the trial point does not depend on the retraction: %s" % brief(w, 200))
        ctx.eq("retraction", "nothing is added to its result", plain_part, ZERO, e.loc, and_(pc, user))
    # the step
    for e in R.solve_ev:
        tag = "ipx" if e.kind == "ip_solve" else "nsx"
        sol = sym_mat(mk(tag, e.data["st"], sort="o"), R.N, ONE)
        c = and_(R.recev.cond(), e.cond())
        if e.kind == "ns_solve":
            c = and_(c, R.is_(e.data["out"], "QPNullSpaceTerminationState", "SUCCESS"))
        ctx.eq("step", "is the solution of this iteration's QP (%s)" % ("interior point" if tag == "ipx" else "null space"), full_at(R.dx, ROW), m_at(sol, ROW), e.loc, c)
    # not altered by the search
    ks = [ph for ph in R.Li.phis.values() if ph.key[0] == "nls" and ph.key[1] and ph.key[1][0] == ("f", "dx_")]
    ctx.expect(not ks, "step", "is not altered by the search", R.Li.loc, "the search loop modifies the step")
    ks = [ph for ph in R.Li.phis.values() if ph.key[0] == "nls" and ph.key[1] and ph.key[1][0] == ("f", "variables_")]
    ctx.expect(not ks, "trial point", "the current point is not altered by the search", R.Li.loc, "the search loop modifies the current point")


def atoms_in(v):
    out, seen, todo = [], set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        for a in x.args:
            if isinstance(a, Node):
                todo.append(a)
            elif isinstance(a, tuple):
                todo += [b for b in a if isinstance(b, Node)] + [c for b in a if isinstance(b, tuple) for c in b if isinstance(c, Node)] + [d for b in a if isinstance(b, tuple) for c in b if isinstance(c, tuple) for d in c if isinstance(d, Node)]
    return out


# ------------------------------------------------------------------------------------------------ N14
def n14(ctx):
    R = nr(ctx)
    f, e = R.spec_errors(R.X)
    e0 = fields(R.rec["errors_initial"])
    ctx.eq("linearisation", "cost", e0["f"], f, R.recev.loc, R.recev.cond())
    ctx.eq("linearisation", "constraint violation", e0["equality"], e, R.recev.loc, R.recev.cond())
    f, e = R.spec_errors(R.trial())
    e1 = fields(R.step["errors"])
    ctx.eq("trial", "cost", e1["f"], f, R.stepev.loc, R.stepev.cond())
    ctx.eq("trial", "constraint violation", e1["equality"], e, R.stepev.loc, R.stepev.cond())
    E = evalrun(ctx)
    x = E.s.val(E.x0)
    R2 = type("", (), {})()
    R2.costs, R2.eqs, R2.s = E.pv["costs"], E.pv["equality_constraints"], E.s
    R2.res = lambda l, k: lat(l, k, E.s.build)
    f, e = NR.spec_errors(R2, x)
    loc = NLS + "::EvaluateNonlinearErrors"
    if E.dead:
        ctx.bad("public evaluation", "returns", loc, "no path returns")
        return
    r = fields(E.ret)
    ctx.eq("public evaluation", "cost", r["f"], f, loc)
    ctx.eq("public evaluation", "constraint violation", r["equality"], e, loc)
    pre = fields(E.mem0["nls"])
    for pc, v, mem in E.returns:
        now = fields(mem["nls"])
        for nm in pre:
            if nm == "error_buffer_" or (pre[nm].op == "mat" and scratch(R, nm)):
                continue
            unchanged_value(ctx, "side effects", "evaluation leaves %s unchanged" % nm, pre[nm], now[nm], loc)
    for e in E.events[E.nev:]:
        if e.kind == "throw":
            ctx.imp("public evaluation", "is not refused", e.cond(), FALSE, e.loc)
    # evaluating the errors of a trial changes neither the current point nor the step
    for nm in ("variables_", "dx_"):
        ks = [ph for ph in R.Li.phis.values() if ph.key[0] == "nls" and ph.key[1] and ph.key[1][0] == ("f", nm)]
        ctx.expect(not ks, "side effects", "evaluating a trial leaves %s unchanged" % nm, R.Li.loc, "modified by the search")


def scratch(R, nm):
    """a buffer that neither the point, the step nor the problem is kept in: overwritten before it is read"""
    return False


def unchanged_value(ctx, rule, what, a, b, loc):
    if a is b:
        return ctx.ok(rule, what, loc)
    if a.op == "mat" and b.op == "mat":
        ctx.eq(rule, what + " (rows)", a.args[0], b.args[0], loc)
        return ctx.eq(rule, what, m_at(a, ROW, COL), m_at(b, ROW, COL), loc)
    ctx.bad(rule, what, loc, "becomes %s" % brief(b, 160))


def evalrun(ctx):
    if "nleval" not in ctx.cache:
        ctx.cache["nleval"] = Entry(ctx, NLS + "::EvaluateNonlinearErrors", lambda E: E.nls, lambda E: [E.x0], make_nls, MODELS)
    return ctx.cache["nleval"]


# ------------------------------------------------------------------------------------------------ N11
def poly_entry(ctx, nm):
    f = ctx.prog().fn(NLS + "::" + nm)

    def args(E):
        out = []
        for i, p in enumerate(f["params"]):
            t = TyRef(f["_m"], p["t"])
            v = E.s.sym(t, "in", ("arg%d" % i,))
            if v.op == "mat":
                v = sym_mat(mk("in", "arg%d" % i, sort="o"), num(2), ONE)
            out.append(E.s.root("arg%d" % i, v) if t.isref else v)
        E.av = out
        return out
    E = Entry(ctx, f, None, args)
    E.a = [E.s.val(v) if v.op == "ref" else v for v in E.av]
    return E


def quad_spec(f0, d, al, fa):
    """parabola through (0,f0), slope d, (al,fa): curvature and minimiser"""
    return add(sub(fa, f0), neg(mul(d, al))), lambda: div(neg(mulall(d, al, al)), scale(sub(sub(fa, f0), mul(d, al)), 2))


def cubic_spec(f0, d, a0, f0a, a1, f1a):
    """coefficients of the cubic and quadratic terms"""
    r0, r1 = sub(sub(f0a, f0), mul(d, a0)), sub(sub(f1a, f0), mul(d, a1))
    det = sub(mul(powi(a0, 2), powi(a1, 3)), mul(powi(a0, 3), powi(a1, 2)))
    a = div(sub(mul(powi(a0, 2), r1), mul(powi(a1, 2), r0)), det)
    b = div(sub(mul(powi(a1, 3), r0), mul(powi(a0, 3), r1)), det)
    return a, b


def n11(ctx):
    ctx.cases = True
    try:
        E = poly_entry(ctx, "QuadraticApproxMinimum")
        quadratic(ctx, E)
    except (LookupError, program.AnchorMissing) as x:
        ctx.unk("quadratic", "function", "", "not found: %s" % x)
    try:
        E = poly_entry(ctx, "CubicApproxCoeffs")
        coeffs(ctx, E)
        E = poly_entry(ctx, "CubicApproxMinimum")
        cubic(ctx, E)
    except (LookupError, program.AnchorMissing) as x:
        ctx.unk("cubic", "function", "", "not found: %s" % x)
    integrated(ctx)


def quadratic(ctx, E):
    f0, d, al, fa = E.a
    loc = E.fn_loc() if hasattr(E, "fn_loc") else NLS + "::QuadraticApproxMinimum"
    curv, best = quad_spec(f0, d, al, fa)
    o = fields(E.ret)
    hyp = gt(al, ZERO)
    has = rb_of(o["has"])
    ctx.eq("quadratic", "the minimiser of the parabola", o["val"], best(), loc, and_(has, hyp, gt(curv, ZERO)))
    ctx.imp("quadratic", "withheld without positive curvature", and_(has, hyp), gt(curv, ZERO), loc)
    ctx.imp("quadratic", "withheld for an increasing start", and_(has, hyp), leq(d, ZERO), loc)
    ctx.imp("quadratic", "given whenever a minimum exists", and_(hyp, gt(curv, ZERO), lt(d, ZERO)), has, loc)
    for e in E.events:
        if e.kind == "throw":
            ctx.imp("quadratic", "no exception for a positive step", e.cond(), not_(hyp), e.loc)


def coeffs(ctx, E):
    f0, d, a0, f0a, a1, f1a = E.a
    loc = NLS + "::CubicApproxCoeffs"
    hyp = and_(gt(a1, ZERO), gt(a0, a1))
    a, b = cubic_spec(f0, d, a0, f0a, a1, f1a)
    pc = E.pc()
    ctx.eq("cubic", "coefficient of the cubic term", m_at(E.ret, ZERO, ZERO), a, loc, and_(hyp, pc))
    ctx.eq("cubic", "coefficient of the quadratic term", m_at(E.ret, ONE, ZERO), b, loc, and_(hyp, pc))
    ctx.imp("cubic", "coefficients are computed for decreasing positive steps", hyp, pc, loc)


def cubic(ctx, E):
    d, ab = E.a
    a, b = m_at(ab, ZERO, ZERO), m_at(ab, ONE, ZERO)
    loc = NLS + "::CubicApproxMinimum"
    o = fields(E.ret)
    has = rb_of(o["has"])
    disc = sub(powi(b, 2), scale(mul(a, d), 3))
    best = div(add(neg(b), sqrt_(max_(ZERO, disc))), scale(a, 3))
    ctx.imp("cubic", "withheld when the cubic term vanishes", has, not_(eqn(a, ZERO)), loc)
    ctx.eq("cubic", "stationary point with positive curvature", o["val"], best, loc, has)
    ctx.imp("cubic", "withheld when the stationary points are not real", has, geq(disc, num(Fraction(-1, 10 ** 9))), loc)
    ctx.imp("cubic", "given whenever it is real", and_(not_(eqn(a, ZERO)), geq(disc, ZERO)), has, loc)


def integrated(ctx):
    R = nr(ctx)
    loc = R.stepev.loc
    al = R.step["alpha"]
    sc = [ph for ph in R.Li.phis.values() if ph.closed is None and ph.sym is not None and is_scalar(ph.sym) and ph.sym.sort == "r"]
    ls = [p for p in R.Li.phis.values() if p.sym is not None and p.sym.op == "list" and p.key == tuple_key(R.stepev.data["list"])]
    if len(sc) != 1 or len(ls) != 1:
        ctx.unk("search", "previous trials", loc, "not identified")
        return
    steps = ls[0].sym
    n = lsize(steps)
    pol = R.is_(R.pf["line_search_strategy"], "LineSearchStrategy", "POLYNOMIAL_APPROXIMATION")
    pc = and_(R.stepev.cond(), pol)
    last = fields(lat(steps, sub(n, ONE), R.s.build))
    prev = fields(lat(steps, sub(n, num(2)), R.s.build))
    m0, D = R.merit(R.rec["errors_initial"]), R.slope()
    curv, best = quad_spec(m0, D, last["alpha"], R.merit(last["errors"]))
    ctx.eq("search", "second trial: minimiser of the parabola through start, slope and first trial", al, best(), loc, and_(pc, eqn(R.Li.k, ONE), gt(curv, ZERO)))
    # abbreviations that stand for the quantities of the merit function are kept
    c = and_(pol, geq(R.Li.k, num(2)))
    x = settled(al, c)
    for _ in range(3):
        if x.op == "nscal":
            x = settled(named_body(x), c)
    mp = {}
    for v in atoms_in(x):
        if v.op == "nscal":
            mp.setdefault(named_body(v), v)
    q = [mp.get(v, v) for v in (m0, D, R.merit(prev["errors"]), R.merit(last["errors"]))]
    a, b = cubic_spec(q[0], q[1], prev["alpha"], q[2], last["alpha"], q[3])
    disc = sub(powi(b, 2), scale(mul(a, q[1]), 3))
    best = settled(div(add(neg(b), sqrt_(max_(ZERO, disc))), scale(a, 3)), c)
    what = "later trials: minimiser of the cubic through the last two trials"
    if x is best or settled(x, not_(eqn(a, ZERO))) is settled(best, not_(eqn(a, ZERO))):
        ctx.ok("search", what, loc)
    elif x.opq:
        ctx.unk("search", what, loc, "value not modelled: " + brief(x, 200))
    elif ctx.refute(x, best) is False:
        ctx.bad("search", what, loc, "step size is %s, required %s" % (brief(x, 300), brief(best, 300)))
    else:
        ctx.unk("search", what, loc, "normal forms differ: %s vs %s" % (brief(x, 160), brief(best, 160)))


# ------------------------------------------------------------------------------------------------ parts of Q13, Q14, Q15
def q13_penalty(ctx):
    R = nr(ctx)
    formula = spec_penalty(R)
    sf = R.pf["equality_penalty_scale_factor"]
    old = R.pen.sym
    want = ite(gt(formula, old), mul(formula, sf), old)
    for e in R.ns_ev:
        ctx.eq("lower triangle", "penalty of the nonlinear solver uses the symmetric Hessian given by the lower triangle", R.rec["penalty"], want,
               R.recev.loc, and_(R.recev.cond(), R.has_eq(), e.cond()))


def q14_nls(ctx):
    R = nr(ctx)
    E = R.E
    for nm, g, mem, fs, pc in R.returns():
        for root, what in (("problem", "problem description"), (E.x0.args[0], "starting point")):
            a, b = E.mem0.get(root), mem.get(root)
            if a is None:
                a = E.s.val(E.x0)
            if a is b:
                ctx.ok("problem unchanged", "nonlinear solve, return with %s: %s" % (nm, what), R.loc)
            elif a.op == "rec" and b.op == "rec":
                unchanged(ctx, "nonlinear solve, return with %s: %s" % (nm, what), a, b, R.loc)
            else:
                unchanged_value(ctx, "problem unchanged", "nonlinear solve, return with %s: %s" % (nm, what), a, b, R.loc)


def nls_outputs(R):
    out = []
    for pc, v, mem in R.E.returns:
        out.append(("returned outputs", v, pc_cond(pc)))
        out.append(("final point", fields(mem["nls"])["variables_"], pc_cond(pc)))
    for e in R.solve_ev:
        for n, x in fields(e.data["qpv"]).items():
            out.append(("QP of the %s: %s" % ("interior-point solver" if e.kind == "ip_solve" else "null-space solver", n), x, e.cond()))
        if "params" in e.data:
            out.append(("parameters of the interior-point solver", e.data["params"], e.cond()))
    for e in R.cb_ev:
        out.append(("callback", e.data["args"][0], e.cond()))
    for e in R.ev:
        if e.kind == "throw":
            out.append(("exception at " + e.loc, e.cond(), TRUE))
        if e.kind == "user" and e.data["fn"] is R.E.retr:
            for i, a in enumerate(e.data["args"]):
                out.append(("retraction argument %d" % i, a, e.cond()))
    return out


def possible(v, c):
    """the values v can have when c holds"""
    if v.op != "gite":
        return [v]
    return [x for x, g in leaves(v) if entails(and_(c, g), FALSE)[0] is not True]


def lst_of(vs):
    return vs[0] if len(vs) == 1 else mk("anyof", *vs, sort="o")


def q15_nls(ctx):
    R = nr(ctx)
    hv = R.E.hv
    kept = {x for x in hv.values() if x.sort == "o" and x.op == "in"}     # installed functions
    kept |= {R.user_cb, R.E.retr}
    bad = []

    def visit(n, fact):
        if n.op == "el" and n.args[0].op in ("in", "uninit"):
            visit(n.args[0], fact)
            return False
        if n.op == "in" and isinstance(n.args[0], str) and n.args[0].startswith("nls."):
            if n not in kept:
                bad.append(n)
            return True
        if n.op == "uninit":
            bad.append(n)
            return True
        if n.op == "box" and n in _boxes:
            Rh.push(_boxes[n], TRUE)
            return True
        return False
    phis = phi_values(R.s)
    back = {R.val(R.L.back.mem, ph): R.bpc for ph in R.L.phis.values() if ph.sym is not None and ph.closed is None}
    phis = {k: [y for x in vs for y in (possible(x, back[x]) if x in back else [x])] for k, vs in phis.items()}
    Rh = Reach(R.s, visit, phis)
    for what, v, c in nls_outputs(R):
        if v.op == "gite":
            v = lst_of(possible(v, c))
        del bad[:]
        opq = Rh.collect(v, c)
        if bad:
            ctx.bad("fresh state", "nonlinear solve: " + what, R.loc, "depends on %s from before the call" % brief(bad[0], 120))
        elif opq:
            ctx.unk("fresh state", "nonlinear solve: " + what, R.loc, "value not modelled: " + brief(opq[0], 160))
        else:
            ctx.ok("fresh state", "nonlinear solve: " + what, R.loc)
    for e in R.ip_ev:
        ctx.expect(e.data["set"].op == "ipset", "fresh state", "the interior-point solver is bound anew for every QP", e.loc, "its state is %s" % brief(e.data["set"], 100))


RULES = {"N%02d" % i: f for i, f in enumerate((n01, n02, n03, n04, n05, n06, n07, n08, n09, n10, n11, n12, n13, n14), 1)}
