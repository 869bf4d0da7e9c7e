"""Rules for records, their text and their JSON form (S01..S07)."""
import re
from .qp2 import *
from ..interp import TyRef, Node
from ..lib_std import is_json, jkeys, jat
from ..terms import _replace_bv, bv
from ..values import TYPES

NS = "mini_opt::"


# ------------------------------------------------------------------------------------------------ symbolic arguments
def arg(s, t, name):
    v = s.sym(t, "fld", (mk("in", name, sort="o"), "v")) if t.kind in ("flt", "int", "uint", "bool") else s.sym(t, "in", (name,))
    return s.root(name, v) if t.isref else v


def call(ctx, f, given=(), this=None, models=None, opts=None):
    """the function on arbitrary arguments; `given` fixes the first ones by value"""
    def args(E):
        out = []
        for i, p in enumerate(f["params"]):
            t = TyRef(f["_m"], p["t"])
            if i < len(given) and given[i] is not None:
                g = given[i](E) if callable(given[i]) else given[i]
                out.append(E.s.root("p%d" % i, g) if t.isref and g.op != "ref" else g)
            else:
                out.append(arg(E.s, t, "p%d" % i))
        return out

    def setup(E):
        E.obj = E.s.sym_object(f["cls"], "obj") if this is None and f["kind"] in ("method", "dtor") and f.get("cls") in E.s.p.rec_by_q else None
    return Entry(ctx, f, lambda E: this(E) if this is not None else E.obj, args, setup, models, opts)


def by_param(P, q, i, key):
    for f in P.by_q.get(q, ()):
        if f.get("body") and len(f["params"]) > i and TyRef(f["_m"], f["params"][i]["t"]).key == key:
            return f
    return None


def enumerators(P, q):
    return [(x["n"], int(x["v"])) for x in P.enums[q]["e"]]


# ------------------------------------------------------------------------------------------------ text
class Unreadable(Exception):
    pass


def literal(n):
    """the text a node denotes, when it is constant"""
    if n.op == "strlit":
        return n.args[0]
    if n.op == "list" and n.args[0] in ("str", "char"):
        r = ""
        for s in n.args[1:]:
            if s[0] != "one":
                return None
            x = chr(int(s[1].args[0])) if s[1].op == "num" else literal(s[1])
            if x is None:
                return None
            r += x
        return r
    if n.op.startswith("obj:") and ("format_string" in n.op or "string_view" in n.op or "basic_string" in n.op) and len(n.args) == 1:
        return literal(n.args[0])
    return None


FIELD = re.compile(r"\{\{|\}\}|\{([^{}:]*)(:[^{}]*)?\}")


def parse_format(fmt):
    """pieces of a format string: ("lit", text) | ("ph", name, spec)"""
    out, pos = [], 0
    for m in FIELD.finditer(fmt):
        lit = fmt[pos:m.start()]
        if "{" in lit or "}" in lit:
            raise Unreadable("stray brace in format string")
        if lit:
            out.append(("lit", lit))
        if m.group(0) in ("{{", "}}"):
            out.append(("lit", m.group(0)[0]))
        else:
            out.append(("ph", m.group(1), (m.group(2) or "")[1:]))
        pos = m.end()
    rest = fmt[pos:]
    if "{" in rest or "}" in rest:
        raise Unreadable("stray brace in format string")
    if rest:
        out.append(("lit", rest))
    return out


def tokens(v, dec):
    """("lit", s) | ("arg", value, spec) | ("if", c, [..], [..]) | ("rep", k, n, [..]);  dec(value) may expand a printed value into text"""
    if v.op == "gite":
        a, b = v.args[1], v.args[2]
        pre = []
        if a.op == "list" and b.op == "list":
            n = 0
            while 1 + n < len(a.args) and 1 + n < len(b.args) and a.args[1 + n] == b.args[1 + n]:
                n += 1
            pre = tokens(mk("list", "str", *a.args[1:1 + n], sort="o"), dec)
            a = mk("list", "str", *a.args[1 + n:], sort="o")
            b = mk("list", "str", *b.args[1 + n:], sort="o")
        return pre + [("if", v.args[0], tokens(a, dec), tokens(b, dec))]
    if v.op == "list":
        out = []
        for s in v.args[1:]:
            out += seg_tokens(s, dec)
        return out
    lit = literal(v)
    if lit is not None:
        return [("lit", lit)]
    if v.op == "num":
        return [("lit", chr(int(v.args[0])))]
    if v.op == "fmt":
        return fmt_tokens(v.args[0], v.args[1:], dec)
    x = dec(v)
    if x is not None:
        return x
    raise Unreadable("text " + brief(v, 120))


def seg_tokens(s, dec):
    if s[0] == "one":
        return tokens(s[1], dec)
    if s[0] == "if":
        return [("if", s[1], tokens(s[2], dec), [])]
    if s[0] == "gen":
        _, lv, n, v, c = s
        k = iv(fresh("t"))
        v, c = _replace_bv(v, {bv(lv): k}, {}), _replace_bv(c, {bv(lv): k}, {})
        body = tokens(v, dec)
        return [("rep", k, n, body if c is TRUE else [("if", c, body, [])])]
    if s[0] == "gens":
        _, lv, n, segs = s
        k = iv(fresh("t"))
        memo = {}

        def go(t):
            return tuple(_replace_bv(z, {bv(lv): k}, memo) if isinstance(z, Node) else go(z) if isinstance(z, tuple) else z for z in t)
        out = []
        for x in segs:
            out += seg_tokens(go(x), dec)
        return [("rep", k, n, out)]
    if s[0] == "sym":
        return [("arg", s[1], "")]
    raise Unreadable("text segment " + s[0])


def fmt_tokens(fs, args, dec):
    t = literal(fs)
    if t is None:
        raise Unreadable("format string " + brief(fs, 80))
    named = {}
    pos = []
    for a in args:
        if a.op == "fmtarg":
            named[literal(a.args[0])] = a.args[1]
            pos.append(a.args[1])
        else:
            pos.append(a)
    out, nxt = [], 0
    for p in parse_format(t):
        if p[0] == "lit":
            out.append(p)
            continue
        if p[1] == "":
            if nxt >= len(pos):
                raise Unreadable("placeholder without argument")
            v = pos[nxt]
            nxt += 1
        elif p[1].isdigit():
            if int(p[1]) >= len(pos):
                raise Unreadable("placeholder without argument")
            v = pos[int(p[1])]
        else:
            if p[1] not in named:
                raise Unreadable("placeholder {%s} without argument" % p[1])
            v = named[p[1]]
        x = dec(v)
        if x is not None:
            out += x
        elif literal(v) is not None and not p[2]:
            out.append(("lit", literal(v)))
        elif v.op == "list" and v.args[0] == "str":
            out += tokens(v, dec)
        else:
            out.append(("arg", v, p[2]))
    return out


class Line:
    def __init__(self, cond, loops):
        self.cond, self.loops, self.t, self.vals, self.esc = cond, tuple(loops), "", [], False

    def key(self):
        return " ".join(self.t.split())


def to_lines(toks):
    """splits text into lines; each knows the condition and loops it is printed under"""
    out = []
    cur = [None]

    def line(cond, loops):
        if cur[0] is None:
            cur[0] = Line(cond, loops)
            out.append(cur[0])
        l = cur[0]
        if l.cond is not cond or l.loops != tuple(loops):
            if not l.t and not l.vals:
                l.cond, l.loops = cond, tuple(loops)
            else:
                raise Unreadable("line assembled under several conditions: %r" % l.t)
        return l

    def walk(ts, cond, loops):
        for t in ts:
            if t[0] == "lit":
                parts = t[1].split("\n")
                for i, p in enumerate(parts):
                    if p:
                        line(cond, loops).t += p
                    if i + 1 < len(parts):
                        line(cond, loops)
                        cur[0] = None
            elif t[0] == "arg":
                l = line(cond, loops)
                l.t += "{}"
                l.vals.append((t[1], t[2]))
            elif t[0] == "if":
                a, b = strip_line(t[2]), strip_line(t[3])
                if cur[0] is not None and a and not any(x[0] in ("if", "rep") for x in a + b) and same_shape(a, b):
                    # the two texts differ in values only
                    walk([x if x[0] == "lit" else ("arg", merge(t[1], x[1], y[1]), x[2]) for x, y in zip(a, b)], cond, loops)
                else:
                    walk(t[2], and_(cond, t[1]), loops)
                    walk(t[3], and_(cond, not_(t[1])), loops)
            elif t[0] == "rep":
                walk(t[3], cond, loops + [(t[1], t[2])])
    walk(toks, TRUE, [])
    return out


def strip_line(ts):
    return ts


def same_shape(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and (x[0] != "lit" or x[1] == y[1]) for x, y in zip(a, b))


# ------------------------------------------------------------------------------------------------ S01
def stream_text(v, base):
    r = []
    while v.op == "stream":
        x = v.args[1]
        t = chr(int(x.args[0])) if x.op == "num" else literal(x)
        if t is None:
            return None
        r.append(t)
        v = v.args[0]
    return "".join(reversed(r)) if v is base else None


def s01(ctx):
    P = ctx.prog()
    n = 0
    for q in sorted(P.enums):
        f = by_param(P, NS + "operator<<", 1, q)
        if f is None:
            continue
        n += 1
        seen = {}
        base = mk("in", "stream", sort="o")
        for name, val in enumerators(P, q):
            E = call(ctx, f, (base, enumv(q, val)))
            loc = "%s(%s)" % (f["q"], q.split("::")[-1])
            got = None if E.dead else stream_text(E.s.st.mem["p0"], base)
            if E.dead:
                ctx.bad("printed name", "%s::%s" % (q, name), loc, "never returns")
            elif got is None:
                ctx.unk("printed name", "%s::%s" % (q, name), loc, "stream content " + brief(E.s.st.mem["p0"], 120))
            else:
                ctx.expect(got == name, "printed name", "%s::%s" % (q, name), loc, "prints %r" % got)
                ctx.expect(got not in seen, "distinct names", "%s::%s" % (q, name), loc, "prints the same text as %s" % seen.get(got))
                seen[got] = name
            ctx.expect(E.dead or (E.ret.op == "ref" and E.ret.args == ("p0", ())), "stream returned", "%s::%s" % (q, name), loc, "does not return its stream argument")
    ctx.expect(n > 0, "inventory", "enumerations with a printed form", "", "none found") if n else ctx.unk("inventory", "enumerations with a printed form", "", "none found")
    # formatting goes through the stream operator unless a formatter has a body of its own
    for q, fs in P.by_q.items():
        m = re.match(r"fmt::formatter<(mini_opt::\w+), char, void>::format$", q)
        if not m or m.group(1) not in P.enums:
            continue
        for f in fs:
            if not f.get("body"):
                continue
            for name, val in enumerators(P, m.group(1)):
                E = call(ctx, f, (enumv(m.group(1), val),))
                try:
                    ts = to_text(tokens(E.s.st.mem.get("fmt.out", lst("str")), lambda v: None))
                except Unreadable as x:
                    ctx.unk("formatted name", "%s::%s" % (m.group(1), name), q, str(x))
                    continue
                ctx.expect(ts == name, "formatted name", "%s::%s" % (m.group(1), name), q, "formats as %r" % ts)


def to_text(ts):
    if all(t[0] == "lit" for t in ts):
        return "".join(t[1] for t in ts)
    raise Unreadable("text is not constant")


# ------------------------------------------------------------------------------------------------ S02
def alt(v, name):
    return fields_of(v)[name]


def s02(ctx):
    P = ctx.prog()
    OUT = NS + "NLSSolverOutputs"

    def total(E, f):
        its = fields(E.mem0["obj"])["iterations"]
        return S(lsize(its), lambda k: f(fields_of(lat(its, k, E.s.build))))

    def qp(it):
        v = fields_of(it["qp_outputs"])
        ip = fields_of(v["a1"])
        return ite(isalt(v["idx"], 1, 2), lsize(ip["iterations"]), ONE)

    def failed(it):
        q = NS + "StepSizeSelectionResult"
        ok = [v for n, v in enumerators(P, q) if n in ("SUCCESS", "FIRST_ORDER_SATISFIED")]
        return mul_ind(not_(fin_eq(it["step_result"], tuple(ok), tuple(sorted(v for _, v in enumerators(P, q))))), ONE)
    for nm, spec, what in (("NumQPIterations", qp, "interior-point iterations of every record, one for a null-space solve"),
                           ("NumLineSearchSteps", lambda it: lsize(it["line_search_steps"]), "recorded trials of every record"),
                           ("NumFailedLineSearches", failed, "records that are neither successful nor first-order satisfied")):
        f = P.fn(OUT + "::" + nm)

        def setup(E):
            E.o = E.s.sym_object(OUT, "obj")
        E = Entry(ctx, f, lambda E: E.o, (), setup)
        if E.dead:
            ctx.bad("counter", nm, f["q"], "never returns")
            continue
        want, subj = total(E, spec), "%s sums the %s" % (nm, what)
        if equal(E.ret, want)[0] is not True:
            # the totals must agree for every number of records: in particular for one and two
            wrong = None
            its = fields(E.mem0["obj"])["iterations"]
            for n in (0, 1, 2):
                def few(E):
                    E.o = E.s.sym_object(OUT, "obj")
                    l = mk("list", its.args[0], *[("one", lat(its, num(i), E.s.build)) for i in range(n)], sort="o")
                    E.s.st.mem["obj"] = rset(E.s.st.mem["obj"], "iterations", l)
                F = Entry(ctx, f, lambda E: E.o, (), few)
                w = ZERO
                for i in range(n):
                    w = add(w, spec(fields_of(lat(its, num(i), F.s.build))))
                if not F.dead and (equal(F.ret, w)[0] is False or differ_by_cases(F.ret, w)):
                    wrong = "for %d record%s the value is %s, required %s" % (n, "" if n == 1 else "s", brief(F.ret, 160), brief(w, 160))
                    break
            if wrong:
                ctx.bad("counter", subj, f["q"], wrong)
                continue
        ctx.eq("counter", subj, E.ret, want, f["q"])
        ctx.eq("unconditional", "%s returns for all records" % nm, E.pc(), TRUE, f["q"])


def differ_by_cases(a, b):
    """two values of one record's counts differ for some small counts"""
    sizes = sorted(atoms_of(a, lambda n: n.op == "size") | atoms_of(b, lambda n: n.op == "size"), key=show)
    for k in (0, 1, 2, 3, 4, 6, 8, 16, 64):
        x, y = [replace(v, {z: num(k) for z in sizes}) for v in (a, b)]
        if equal(x, y)[0] is False:
            return True
    return False


def isalt(idx, i, n):
    if idx.op == "enum":
        return TRUE if idx.args[1] == i else FALSE
    if idx.op == "gite":
        return gite(idx.args[0], isalt(idx.args[1], i, n), isalt(idx.args[2], i, n))
    return fin_eq(idx, (i,), tuple(range(n)))


# ------------------------------------------------------------------------------------------------ S07
def s07(ctx):
    P = ctx.prog()

    def method(cls, name, given=()):
        f = P.fn(NS + cls + "::" + name)
        E = call(ctx, f, given)
        return f, E, fields(E.mem0["obj"])
    f, E, k = method("KKTError", "Max")
    ctx.eq("KKT maximum", "largest of all four components", E.ret, max_(*[k[x] for x in ("r_dual", "r_comp", "r_primal_eq", "r_primal_ineq")]), f["q"])
    for cls, a, b in (("Errors", "f", "equality"), ("DirectionalDerivatives", "d_f", "d_equality")):
        f, E, v = method(cls, "Total")
        p = E.mem0.get("p0")
        p = p if p is not None else mk("fld", mk("in", "p0", sort="o"), "v", sort="r")
        ctx.eq("merit total", "%s: objective part plus penalty times constraint part" % cls, E.ret, add(v[a], mul(p, v[b])), f["q"])
        f, E, v = method(cls, "LInfinity")
        want = max_(abs_(v[a]), abs_(v[b]))
        if cls == "Errors" and equal(E.ret, max_(v[a], v[b]))[0] is True:
            want = max_(v[a], v[b])  # errors are non-negative (R02, N10)
        ctx.eq("L-infinity", "%s: largest magnitude" % cls, E.ret, want, f["q"])
    f, E, v = method("Errors", "ContainsInvalidValues")
    fin = lambda x: bsym(mk("isfinite", x, sort="i"))
    ctx.eq("invalid errors", "exactly when a component is infinite or NaN", E.ret, or_(not_(fin(v["f"])), not_(fin(v["equality"]))), f["q"])
    f = P.fn(NS + "TerminationStateIndicatesSatisfiedTol")
    q = NS + "NLSTerminationState"
    for name, val in enumerators(P, q):
        E = call(ctx, f, (enumv(q, val),))
        want = name in ("SATISFIED_ABSOLUTE_TOL", "SATISFIED_RELATIVE_TOL", "SATISFIED_FIRST_ORDER_TOL")
        if E.ret not in (TRUE, FALSE):
            ctx.unk("satisfied states", name, f["q"], "result " + brief(E.ret, 80))
        else:
            ctx.expect((E.ret is TRUE) == want, "satisfied states", name, f["q"], "counts as %ssatisfied" % ("" if E.ret is TRUE else "not "))


# ------------------------------------------------------------------------------------------------ S03
COLOR = NS + "ColorFmt"


def template(t):
    return " ".join(t.split())


class Spec:
    def __init__(self, t, vals, cond=TRUE, loops=(), note=""):
        self.t, self.vals, self.cond, self.loops, self.note = template(t), vals, cond, loops, note


def color_parts(v):
    """(code, enabled) of a printed colour"""
    if v.op == "rec" and v.args[0] == COLOR:
        f = fields(v)
        return f["code"], f["enabled"]
    return None


def ip_specs(b, it, cond, loops):
    ki, kf = fields_of(it["kkt_initial"]), fields_of(it["kkt_final"])
    ipo = fields_of(it["ip_outputs"])
    al, pr = fields_of(ipo["alpha"]), fields_of(ipo["alpha_probe"])
    mx = lambda k: max_(*k.values())
    probe = not_(bsym(mk("isnan", ipo["mu_affine"], sort="i")))
    o = [Spec("Iteration summary: ||kkt|| max: {} --> {}, mu = {}, a_p = {}, a_d = {}",
              [mx(ki), mx(kf), ipo["mu"], al["primal"], al["dual"]], cond, loops),
         Spec("Probe alphas: a_p = {}, a_d = {}, mu_affine = {}", [pr["primal"], pr["dual"], ipo["mu_affine"]], and_(cond, probe), loops)]
    for l, f in (("r_dual", "r_dual"), ("r_comp", "r_comp"), ("r_p_eq", "r_primal_eq"), ("r_p_ineq", "r_primal_ineq")):
        o.append(Spec("%s = {} --> {}" % l, [ki[f], kf[f]], cond, loops))
    return o


def nls_specs(b, P, it, color, qp, cond, loops):
    e, d = fields_of(it["errors_initial"]), fields_of(it["directional_derivatives"])
    pen = it["penalty"]
    ev = fields_of(it["qp_eigenvalues"])
    evv = fields_of(ev["val"])
    var = fields_of(it["qp_outputs"])
    ip = fields_of(var["a1"])
    isip = isalt(var["idx"], 1, 2)
    tot = lambda e: add(e["f"], mul(pen, e["equality"]))
    k = iv(fresh("step"))
    st = fields_of(lat(it["line_search_steps"], k, b))
    se = fields_of(st["errors"])
    steps = lsize(it["line_search_steps"])
    j = iv(fresh("qpit"))
    its = ip["iterations"]
    out = [Spec("Iteration # {}, state = {}, lambda = {}", [it["iteration"], it["optimizer_state"], it["lambda"]], cond, loops),
           Spec("f(0): {}, c(0): {}, total: {}", [e["f"], e["equality"], tot(e)], cond, loops),
           Spec("min, max, |min| eig = {}, {}, {}", [evv["min"], evv["max"], evv["abs_min"]], and_(cond, ev["has"]), loops),
           Spec("penalty = {}", [pen], cond, loops),
           Spec("QP-IP: {}, {}", [ip["termination_state"], lsize(its)], and_(cond, isip), loops),
           Spec("QP: {}", [var["a0"]], and_(cond, not_(isip)), loops),
           Spec("df/dalpha = {}, dc/dalpha = {}", [d["d_f"], d["d_equality"]], cond, loops),
           Spec("Search result: {}{}{}", ["open", it["step_result"], "close"], cond, loops),
           Spec("f({}): {}, c({}): {}, total: {}, alpha = {}", [k, se["f"], k, se["equality"], tot(se), st["alpha"]], cond, loops + ((k, steps),))]
    out += ip_specs(b, fields_of(lat(its, j, b)), and_(cond, isip, qp), loops + ((j, lsize(its)),))
    return out


def pieces(t):
    """labelled pieces of a line"""
    return [p for p in re.split(r", ", t)]


def check_text(ctx, who, loc, ret, specs, color):
    opened = []
    try:
        lines = to_lines(tokens(ret, lambda v: None))
    except Unreadable as x:
        ctx.unk("report text", who, loc, str(x))
        return
    used = {}
    unknown = []
    by_t = {}
    for sp in specs:
        by_t.setdefault(sp.t, []).append(sp)
    items = {}
    for sp in specs:
        i = 0
        ps = pieces(sp.t)
        for p in ps:
            n = p.count("{}")
            if "{}{}" not in p and n and p.split("{}")[0].strip():
                items.setdefault(p, []).append((sp, i, n))
            i += n
    for l in lines:
        key = l.key()
        depth = len(l.loops)
        cand = [sp for sp in by_t.get(key, ()) if len(sp.loops) == depth] or by_t.get(key, [])
        if cand:
            sp = cand[0]
            if depth != len(sp.loops):
                ctx.bad("line per entry", "%s: %s" % (who, sp.t), loc, "printed inside %d loops instead of %d" % (depth, len(sp.loops)))
                continue
            used.setdefault(sp, []).append(l)
            check_line(ctx, who, loc, l, sp, list(enumerate(sp.vals)), l.vals, color)
            continue
        if not l.vals:
            continue
        i, known = 0, True
        for p in pieces(key):
            n = p.count("{}")
            c = [x for x in items.get(p, ()) if len(x[0].loops) == depth]
            if n and not c:
                known = False
            elif n and len(c) == 1:
                sp, k, _ = c[0]
                used.setdefault((sp, k), []).append(l)
                check_line(ctx, who, loc, l, sp, [(j, sp.vals[k + j]) for j in range(n)], l.vals[i:i + n], color, p)
            elif n:
                known = False
            i += n
        if not known:
            unknown.append(key)
    for u in unknown:
        ctx.unk("report text", "%s: line %r" % (who, u), loc, "line is not described by the specification")
    for sp in specs:
        ls = used.get(sp, [])
        if ls:
            conds = [rename(l.cond, l.loops, sp.loops) for l in ls]
            ctx.eq("printed when", "%s: %s" % (who, sp.t), or_(*conds), sp.cond, loc)
            for i in range(len(conds)):
                for j in range(i):
                    ctx.eq("printed once", "%s: %s" % (who, sp.t), and_(conds[i], conds[j]), FALSE, loc)
            continue
        if any(isinstance(k, tuple) and k[0] is sp for k in used):
            i = 0
            for p in pieces(sp.t):
                n = p.count("{}")
                if n and (sp, i) not in used and (p in items):
                    (ctx.unk if unknown else ctx.bad)("printed", "%s: %s" % (who, p), loc, "quantity is not printed")
                i += n
            continue
        if unknown:
            ctx.unk("printed", "%s: %s" % (who, sp.t), loc, "no such line, but lines the specification does not describe")
        else:
            ctx.bad("printed", "%s: %s" % (who, sp.t), loc, "this line is not printed")


def rename(v, have, want):
    return subst(v, {a: b for (a, _), (b, _) in zip(have, want)}) if have else v


def check_line(ctx, who, loc, l, sp, want, got, color, label=None):
    t = label or sp.t
    for (a, n), (b, m) in zip(l.loops, sp.loops):
        ctx.eq("line per entry", "%s: %s" % (who, t), rename(n, l.loops, sp.loops), m, loc, sp.cond)
    names = re.findall(r"([^{},]*)\{\}", t)
    for (i, w), (g, spec) in zip(want, got):
        g = rename(g, l.loops, sp.loops)
        what = "%s: %s (value %d)" % (who, t, i + 1)
        if w in ("open", "close"):
            c = color_parts(g)
            if c is None:
                ctx.unk("colour", what, loc, "not a colour value: " + brief(g, 80))
                continue
            ctx.eq("colour only on request", what, c[1], color, loc)
            if w == "close":
                none = color_none(ctx)
                ctx.eq("colour closed", what, c[0] if c[0].op == "enum" else c[0], none, loc)
            continue
        if w.op == "enum" or g.op == "enum" or w.sort == "e":
            ctx.expect(g is w, "labelled value", what, loc, "prints %s, required %s" % (brief(g, 200), brief(w, 200)))
            continue
        ctx.eq("labelled value", what, g, w, loc, sp.cond)
    if len(want) != len(got):
        ctx.bad("labelled value", "%s: %s" % (who, t), loc, "%d values for %d labels" % (len(got), len(want)))


def color_none(ctx):
    q = NS + "ColorCode"
    for n, v in enumerators(ctx.prog(), q):
        if n == "NONE":
            return enumv(q, v)
    raise Undecided("no neutral colour")


def s03(ctx):
    P = ctx.prog()
    QI, NI, NO = NS + "QPInteriorPointIteration", NS + "NLSIteration", NS + "NLSSolverOutputs"
    f = P.fn(QI + "::ToString")
    E = call(ctx, f)
    check_text(ctx, "interior-point iteration", f["q"], E.ret, ip_specs(E.s.build, fields(E.mem0["obj"]), TRUE, ()), FALSE)
    f = P.fn(NI + "::ToString")
    E = call(ctx, f)
    col, qp = flags(f)
    check_text(ctx, "iteration", f["q"], E.ret, nls_specs(E.s.build, P, fields(E.mem0["obj"]), col, qp, TRUE, ()), col)
    f = P.fn(NO + "::ToString")
    E = call(ctx, f)
    col, qp = flags(f)
    o = fields(E.mem0["obj"])
    k = iv(fresh("rec"))
    n = lsize(o["iterations"])
    specs = nls_specs(E.s.build, P, fields_of(lat(o["iterations"], k, E.s.build)), col, qp, TRUE, ((k, n),))
    specs.append(Spec("termination = {}{}{}", ["open", o["termination_state"], "close"]))
    check_text(ctx, "solve", f["q"], E.ret, specs, col)
    # escape codes
    fs = P.by_q.get("fmt::formatter<%s, char, void>::format" % COLOR, [])
    if not fs:
        ctx.unk("escape codes", "formatter of colours", "", "no formatter found")
    for f in fs:
        q = NS + "ColorCode"
        for name, val in enumerators(P, q):
            for on in (TRUE, FALSE):
                E = call(ctx, f, (rec(COLOR, ("code", "enabled"), (enumv(q, val), on)),))
                what = "%s, %s" % (name, "enabled" if on is TRUE else "disabled")
                try:
                    ts = tokens(E.s.st.mem.get("fmt.out", lst("str")), lambda v: None)
                    t = "".join(x[1] if x[0] == "lit" else str(int(x[1].args[0])) if x[1].op == "num" else "?" for x in ts if x[0] in ("lit", "arg"))
                    if any(x[0] not in ("lit", "arg") for x in ts) or "?" in t:
                        raise Unreadable("text of a colour")
                except Unreadable as x:
                    ctx.unk("escape codes", what, f["q"], str(x))
                    continue
                if on is FALSE:
                    ctx.expect(t == "", "escape codes", what, f["q"], "writes %r" % t)
                elif name == "NONE":
                    ctx.expect(t in ("\x1b[0m", "\x1b[m"), "escape codes", what, f["q"], "writes %r instead of the reset code" % t)
                else:
                    ctx.expect(re.fullmatch(r"\x1b\[[0-9;]+m", t) is not None and t != "\x1b[0m", "escape codes", what, f["q"], "writes %r" % t)


def flags(f):
    """the two switches of a report, by position: colour, interior-point details"""
    return bsym(mk("fld", mk("in", "p0", sort="o"), "v", sort="i")), bsym(mk("fld", mk("in", "p1", sort="o"), "v", sort="i"))


# ------------------------------------------------------------------------------------------------ JSON
JN = mk("jnull", sort="o")
DOC = mk("jdoc", sort="o")
ROOT = NS + "NLSSolverOutputs"
ARITH = ("bool", "int", "uint", "flt")


class Json:
    """the conversion functions of every type that occurs in solver outputs"""
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.prog()
        self.to, self.frm, self.types = {}, {}, {}
        for q, fs in self.P.by_q.items():
            n = q.split("::")[-1].split("<")[0]
            if n not in ("to_json", "from_json"):
                continue
            for f in fs:
                if not f.get("body"):
                    continue
                ps = [TyRef(f["_m"], p["t"]) for p in f["params"]]
                if n == "to_json" and len(ps) == 2:
                    self.to[ps[1].key] = f
                    self.types[ps[1].key] = ps[1]
                elif n == "from_json" and len(ps) == 2:
                    self.frm[ps[1].key] = f
                elif n == "from_json" and len(ps) == 1:
                    self.frm[TyRef(f["_m"], f["ret"]).key] = f
        self.docs = {}

    def written(self, t):
        """(document, value) of converting an arbitrary value of the type"""
        if t.key not in self.docs:
            f = self.to[t.key]
            p = TyRef(f["_m"], f["params"][1]["t"])
            E = call(self.ctx, f, (JN, lambda E: E.s.sym(p, "in", ("x",))))
            x = E.s.sym(p, "in", ("x",))
            doc = None if E.dead else E.s.st.mem["p0"]
            self.docs[t.key] = (E, doc, x)
        return self.docs[t.key]

    def read(self, t, doc):
        f = self.frm[t.key]
        E = call(self.ctx, f, (doc,), None, None, {"jkind": self.kind})
        if E.dead:
            return E, None
        return E, (E.s.st.mem["p1"] if len(f["params"]) == 2 else E.s.val(E.ret))

    def kind(self, key, x, test):
        if isinstance(test, tuple):
            if key not in self.to:
                return None
            doc = self.written(self.types[key])[1]
            ls = json_leaves(doc) if doc is not None else []
            if ls and all(l.op == "jobj" for l in ls):
                has = {test[1] in jkeys(l) for l in ls}
                return None if len(has) > 1 else TRUE if has == {True} else FALSE
            return FALSE if ls and all(l.op == "jconv" and strlike(l.args[1]) for l in ls) else None
        t = self.types.get(key)
        k = t.kind if t is not None else None
        if x.op in ("strlit",) or (x.op == "list" and x.args[0] == "str"):
            k = "str"
        if k is None and x.op not in ("rec", "gite", "enum", "list", "opq") and key in ("double", "float", "int", "long", "bool", "unsigned int", "unsigned long"):
            k = "flt" if key in ("double", "float") else "int"
        if k == "flt":
            # written to text, a number that is not finite becomes null
            fin = bsym(mk("isfinite", x, sort="i"))
            return {"is_null": not_(fin), "is_number": fin, "is_number_float": fin}.get(test, FALSE)
        if k in ("int", "uint", "bool", "str", "list"):
            yes = {"str": ("is_string",), "list": ("is_array", "is_structured"), "bool": ("is_boolean",)}.get(k, ("is_number",))
            return TRUE if test in yes else FALSE
        if k == "opt" and test == "is_null":
            return not_(fields_of(x)["has"])
        if t is None:
            return None
        if key in self.to:
            E, doc, _ = self.written(t)
            if doc is None:
                return None
            ks = {l.op if l.op != "jconv" else (l.op, strlike(l.args[1])) for l in json_leaves(doc)}
            if ks == {"jobj"}:
                return TRUE if test in ("is_object", "is_structured") else FALSE
            if ks == {("jconv", True)}:
                return TRUE if test == "is_string" else FALSE
        return None

    def closure(self):
        """types converted while writing solver outputs, outermost first"""
        out, todo = [], [ROOT]
        while todo:
            k = todo.pop(0)
            if k in out:
                continue
            out.append(k)
            if k not in self.to:
                continue
            E, doc, _ = self.written(self.types[k])
            if doc is None:
                continue
            for c, t in json_convs(doc, self.P, self):
                if c not in out:
                    todo.append(c)
        return out


def strlike(v):
    if v.op == "gite":
        return strlike(v.args[1]) and strlike(v.args[2])
    return v.op == "strlit" or (v.op == "list" and v.args[0] == "str")


def json_leaves(v):
    if v.op == "gite":
        return json_leaves(v.args[1]) + json_leaves(v.args[2])
    return [v]


def json_convs(doc, P, J):
    """types whose own conversion a document relies on"""
    out = []

    def need(key):
        t = J.types.get(key)
        m = re.match(r"std::vector<(.*), std::allocator<.*>>$", key)
        if m:
            need(m.group(1))
        elif key in J.to or key.startswith(NS) or key.startswith("std::optional<") or key.startswith("std::variant<"):
            out.append((key, t))

    def go(v):
        if v.op == "gite":
            go(v.args[1])
            go(v.args[2])
        elif v.op == "jobj":
            for _, x in v.args[1:]:
                go(x)
        elif v.op == "jconv" and not strlike(v.args[1]):
            need(v.args[0])
    go(doc)
    return out


def tests_in(v, op):
    return atoms_of(v, lambda n: n.op == op) if isinstance(v, Node) else set()


def with_atoms(v, m):
    """the value when the given atomic tests are decided"""
    if not m or not isinstance(v, Node):
        return v
    return assume_lits(v, facts_of(and_(*[bsym(a) if x else not_(bsym(a)) for a, x in m.items()])))


def finiteness(v, yes):
    """the value when every number in it is finite (or every one is NaN)"""
    m = {a: yes for a in tests_in(v, "isfinite")}
    m.update({a: not yes for a in tests_in(v, "isnan")})
    return with_atoms(v, m)


def type_named(P, key):
    for m in P.mods:
        for i, t in enumerate(m.types):
            if t and TyRef(m, i).key == key and "p" not in t:
                return TyRef(m, i)
    return None


def may_be_nan(P, s):
    """numeric fields that legitimately hold NaN: those initialised to NaN, and errors of rejected trials"""
    out = set()
    for q in P.rec_by_q:
        if not q.startswith(NS) or "<" in q or q.count("::") > 1:
            continue
        t = type_named(P, q)
        if t is None or t.kind != "rec":
            continue
        todo = [s.default(t, "dflt")]
        while todo:
            v = todo.pop()
            if v.op == "rec":
                out |= {(v.args[0], n) for n, x in zip(v.args[1], v.args[2:]) if x is NAN}
                todo += v.args[2:]
    return out | {(NS + "Errors", n) for n in ("f", "equality")}


def short(key):
    return re.sub(r", std::allocator<[^<>]*>", "", key).replace(NS, "")


def s04(ctx):
    P = ctx.prog()
    J = Json(ctx)
    if ROOT not in J.to or ROOT not in J.frm:
        ctx.unk("conversion", "solver outputs", "", "conversion functions not found")
        return
    nan = None
    for key in J.closure():
        t = J.types.get(key)
        w = short(key)
        if key not in J.to or key not in J.frm:
            ctx.unk("conversion", w, "", "no pair of conversion functions found for this type")
            continue
        if t.kind == "enum":
            continue        # S05
        f, g = J.to[key], J.frm[key]
        W, doc, x = J.written(t)
        if nan is None:
            nan = may_be_nan(P, W.s)
        if doc is None:
            ctx.bad("written", w, f["q"], "never returns")
            continue
        R, y = J.read(t, doc)
        if y is None:
            ctx.bad("read back", w, g["q"], "reading what was written never returns")
            continue
        loc = "%s / %s" % (f["q"], g["q"])
        for e in W.throws():
            ctx.eq("written", "%s: no exception while writing" % w, e.cond(), FALSE, e.loc)
        for e in R.throws():
            ctx.eq("read back", "%s: no exception while reading what was written" % w, finiteness(e.cond(), True), FALSE, e.loc)
        b = R.s.build
        if t.kind == "rec":
            for n in x.args[1]:
                a, r = fields_of(x)[n], fields_of(y)[n]
                same(ctx, "%s.%s" % (w, n), finiteness(r, True), a, loc, b)
                if (key, n) in nan:
                    check_nan(ctx, J, R, "%s.%s" % (w, n), r, a, loc)
        else:
            same(ctx, w, finiteness(y, True), x, loc, b)


def same(ctx, what, got, want, loc, b, under=TRUE):
    rule = "restored"
    if got is want:
        ctx.expect(True, rule, what, loc, "")
        return
    missing = tests_in(got, "jmissing")
    if missing:
        ctx.bad(rule, what, loc, "is read from a key that is not written: %s" % brief(got, 160))
        return
    if want.op == "rec" and got.op == "rec" and want.args[0] == got.args[0] == "optional":
        gh, wh = fields_of(got)["has"], fields_of(want)["has"]
        ctx.eq(rule, what + ": whether set", gh, wh, loc, under)
        same(ctx, what + ": value", fields_of(got)["val"], fields_of(want)["val"], loc, b, and_(under, wh))
        return
    if want.op == "rec" and got.op == "rec" and want.args[0] == got.args[0] == "variant":
        n = len(want.args[1]) - 1
        g, w = fields_of(got), fields_of(want)
        for i in range(n):
            c = isalt(w["idx"], i, n)
            ctx.eq(rule, "%s: alternative %d" % (what, i), isalt(g["idx"], i, n), c, loc, under)
            same(ctx, "%s: value of alternative %d" % (what, i), g["a%d" % i], w["a%d" % i], loc, b, and_(under, c))
        return
    if want.op == "rec" and got.op == "rec" and want.args[1] == got.args[1]:
        for n, p, q in zip(want.args[1], want.args[2:], got.args[2:]):
            same(ctx, "%s.%s" % (what, n), q, p, loc, b, under)
        return
    if want.op == "list" and got.op == "list":
        if want.args[1:] == got.args[1:]:
            ctx.expect(True, rule, what, loc, "")
        else:
            ctx.bad(rule, what, loc, "elements are %s, required %s" % (brief(got, 160), brief(want, 160)))
        return
    g = got
    if under is not TRUE and isinstance(g, Node):
        g = assume_bool(g, under, True)
        if g is want or g is assume_bool(want, under, True):
            ctx.expect(True, rule, what, loc, "")
            return
    if want.sort in ("e", "i", "r", "b") and g.sort in ("e", "i", "r", "b") and want.sort not in ("e",) and g.op not in ("enum",):
        ctx.eq(rule, what, g, want, loc, under)
        return
    bad = tests_in(g, "opq") or tests_in(g, "json:")
    (ctx.unk if bad else ctx.bad)(rule, what, loc, "becomes %s, required %s" % (brief(g, 200), brief(want, 120)))


def check_nan(ctx, J, R, what, r, a, loc):
    """what is read back when the written number was NaN"""
    got = finiteness(r, False)
    ctx.expect(got is NAN, "NaN restored", what, loc, "a NaN is read back as %s" % brief(got, 160))
    for e in R.events:
        if e.kind != "json" or e.data["name"] not in ("get", "get_to"):
            continue
        o = e.data["obj"]
        if o.op == "jconv" and o.args[1] is a and finiteness(e.cond(), False) is not FALSE:
            ctx.bad("NaN restored", what, e.loc, "null is converted to a number, which raises an exception")


# ------------------------------------------------------------------------------------------------ S05
def s05(ctx):
    P = ctx.prog()
    J = Json(ctx)
    n = 0
    for key in J.closure():
        if key not in P.enums:
            continue
        w = short(key)
        if key not in J.to or key not in J.frm:
            ctx.unk("conversion", w, "", "no pair of conversion functions found for this type")
            continue
        n += 1
        f, g = J.to[key], J.frm[key]
        seen = {}
        for name, val in enumerators(P, key):
            what = "%s::%s" % (w, name)
            E = call(ctx, f, (JN, enumv(key, val)))
            d = None if E.dead else E.s.st.mem["p0"]
            t = literal(d.args[1]) if d is not None and d.op == "jconv" else None
            if t is None:
                (ctx.bad if E.dead or d.op in ("jconv", "jnull") else ctx.unk)("written name", what, f["q"], "is written as " + ("nothing" if d is None else brief(d, 120)))
            else:
                ctx.expect(t == name, "written name", what, f["q"], "is written as %r" % t)
                ctx.expect(t not in seen, "distinct names", what, f["q"], "is written as %s is" % seen.get(t))
                seen[t] = name
            for text in {name, t} - {None}:
                E = call(ctx, g, (mk("jconv", "str", mk("strlit", text, sort="o"), sort="o"),))
                r = None if E.dead else E.s.st.mem["p1"] if len(g["params"]) == 2 else E.ret
                if r is None:
                    ctx.bad("read name", "%r" % text, g["q"], "raises an exception")
                elif r.op != "enum":
                    ctx.unk("read name", "%r" % text, g["q"], "reads as " + brief(r, 120))
                else:
                    ctx.expect(r.args[1] == val, "read name", "%r of %s" % (text, what), g["q"], "reads as %s" % brief(r, 60))
    if not n:
        ctx.unk("inventory", "enumerations in solver outputs", "", "none found")


# ------------------------------------------------------------------------------------------------ S06
def s06(ctx):
    P = ctx.prog()
    J = Json(ctx)
    if ROOT not in J.to or ROOT not in J.frm:
        ctx.unk("conversion", "solver outputs", "", "conversion functions not found")
        return
    for key in J.closure():
        t = J.types.get(key)
        w = short(key)
        if key not in J.to or key not in J.frm:
            ctx.unk("conversion", w, "", "no pair of conversion functions found for this type")
            continue
        W, doc, x = J.written(t)
        if doc is None:
            continue
        g = J.frm[key]
        R, y = J.read(t, DOC)
        pc = R.pc()
        for e in R.events:
            if e.kind == "json" and e.data["name"] == "operator[]" and e.data["args"] and e.data["args"][0].op == "strlit":
                k = e.data["args"][0].args[0]
                if e.data.get("cm"):
                    c = with_atoms(e.cond(), {a: False for a in tests_in(e.cond(), "json:contains") if a.args[1].args[0] == k})
                    ctx.expect(c is FALSE, "no missing entry accessed", "%s: key %s" % (w, k), e.loc, "operator[] of a constant document on a key that may be missing")
        if doc.op == "jobj":
            for k, v in doc.args[1:]:
                miss = lambda c: with_atoms(c, {a: False for a in tests_in(c, "json:contains") if a.args[0] is DOC and a.args[1].args[0] == k})
                hit = []
                for e in R.events:
                    if e.kind == "throw":
                        hit.append(miss(e.cond()))
                    elif e.kind == "json" and e.data["name"] == "at" and e.data["obj"] is DOC and e.data["args"] and e.data["args"][0].op == "strlit" and e.data["args"][0].args[0] == k:
                        hit.append(miss(e.cond()))
                if R.dead:
                    hit = [TRUE]
                ctx.eq("missing key rejected", "%s: key %s" % (w, k), or_(*hit), TRUE, g["q"])
        if t.kind == "var" and y is not None:
            n = t.ntargs()
            for i in range(n):
                a = t.targ(i)
                if a.kind != "rec" or a.key not in J.to:
                    continue
                m = {}
                for z in set().union(*(tests_in(y, "json:" + k) for k in ("is_object", "is_string", "is_null", "is_array", "is_number", "is_structured"))) | \
                        set().union(*(tests_in(pc, "json:" + k) for k in ("is_object", "is_string", "is_null", "is_array", "is_number", "is_structured"))):
                    if z.args[0] is DOC:
                        m[z] = z.op in ("json:is_object", "json:is_structured")
                idx = with_atoms(fields_of(y)["idx"], m)
                ctx.imp("incomplete object rejected", "%s: any object is read as %s" % (w, short(a.key)), with_atoms(pc, m), isalt(idx, i, n), g["q"])
        ctx.expect(True, "analysed", w, g["q"], "")


RULES = {"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06, "S07": s07}
