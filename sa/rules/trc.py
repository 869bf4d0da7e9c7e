"""Rules for the trace collector (T01..T05)."""
import json as _json
import re
from .qp2 import *
from .rec import NS, Unreadable, arg, call, literal, parse_format, tokens, type_named, tests_in
from ..interp import TyRef, Node, Unsupported
from ..lib_std import leaves

MUTEX = re.compile(r"std::(recursive_|shared_|timed_|recursive_timed_|shared_timed_)*mutex$")


def event_type(ctx):
    """record type of a stored event: what a submission takes"""
    f = ctx.prog().fn(NS + "trace_collector::submit_event")
    for p in f["params"]:
        t = TyRef(f["_m"], p["t"])
        if t.kind == "rec":
            return f, t
    raise AnchorMissing("submission takes no event record")


def internal(f):
    return f.get("acc") in (1, 2) or (f["kind"] == "fn" and re.match(r"c:[\w.]+\.(cc|cpp|cxx)@", f["u"]) is not None) or "@aN" in f["u"]


def fn_calls(f):
    out, todo = set(), [f.get("body"), f.get("inits")]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if isinstance(x.get("fn"), dict) and "u" in x["fn"]:
                out.add(x["fn"]["u"])
            todo += list(x.values())
        elif isinstance(x, (list, tuple)):
            todo += list(x)
    return out


def shared_data(ctx):
    """(names of fields, names of variables) that threads share: event buffers and whatever lives beside a mutex"""
    P = ctx.prog()
    f, et = event_type(ctx)
    names, holders = {}, set()
    for q, rs in P.rec_by_q.items():
        if not q.startswith(NS):
            continue
        for r in rs:
            ts = [(x["n"], TyRef(r["_m"], x["t"])) for x in r["fields"]]
            mx = any(MUTEX.match(t.q or "") for _, t in ts)
            for n, t in ts:
                buf = t.kind == "list" and t.targ(0) is not None and t.targ(0).key == et.key
                if buf or (mx and not MUTEX.match(t.q or "") and not t.const and not t.q.startswith("std::atomic") and not t.q.startswith("std::condition")):
                    names[n] = q
                    holders.add(q)
    return f, et, names, holders


def t01(ctx):
    P = ctx.prog()
    sub, et, names, holders = shared_data(ctx)
    tu = [f for f in P.funcs.values() if f.get("in") and f.get("body") and f.get("tu") == sub.get("tu")]
    called = set().union(*(fn_calls(f) for f in tu))
    entries = [f for f in tu if f["kind"] not in ("ctor",) and not (f["kind"] == "dtor" and f.get("cls") in holders)
               and not (internal(f) and f["u"] in called) and not f.get("lamop")]
    uses = {}
    for f in entries:
        others = {g["q"]: None for g in entries if g is not f and g["kind"] != "dtor" and g["q"] != f["q"]}

        def skip(ip, e):
            fn = e["fn"]
            t = TyRef(ip.fr.mod, fn["ret"]) if "ret" in fn else None
            if t is None or t.kind == "ptr" or t.isref:
                return NotImplemented
            for a in e["args"]:
                ip.rv(a)
            return UNSET
        models = {q: skip for q in others}
        cell = []

        def track(root, path):
            if re.match(r"\d+:", root):
                return None
            for s in path:
                if s[0] == "f" and s[1] in names:
                    return s[1]
            if root.startswith("G:") and not path:
                s = cell[0] if cell else None
                t = s.gtype.get(root) if s is not None else None
                if t is None or t.const or root in s.tls or MUTEX.match(t.q or "") or t.q.startswith("std::atomic") or t.q == "std::once_flag":
                    return None
                return root
            return None

        def this(E):
            return E.obj if E.obj else None
        try:
            E = Tracked(ctx, f, models, track, cell)
        except Unsupported as x:
            ctx.unk("access under lock", f["q"], f["q"], "not analysed: %s" % x)
            continue
        if any(e.kind == "access" for e in E.events):
            ctx.expect(True, "analysed", f["q"], f["q"], "")
        for e in E.events:
            if e.kind == "access":
                uses.setdefault(e.data["key"], []).append((f, E, e))
    n = 0
    for key, us in sorted(uses.items()):
        if not any(e.data["write"] for _, _, e in us):
            continue
        n += 1
        sets = [held(E, e) for _, E, e in us]
        common = set.intersection(*sets)
        for (f, E, e), h in zip(us, sets):
            what = "%s of %s in %s" % ("write" if e.data["write"] else "read", key, e.fn)
            if common:
                ctx.expect(True, "access under lock", what, e.loc, "")
            elif unclear(E):
                ctx.unk("access under lock", what, e.loc, "a lock is held in a way this analysis does not follow")
            elif not h:
                ctx.bad("access under lock", what, e.loc, "no mutex is held on some path to this access (entered through %s)" % f["q"])
            else:
                others = [x for x in sets if x and not (x & h)]
                if others or all(sets):
                    ctx.bad("one lock for all accesses", what, e.loc, "protected by %s, other accesses by another mutex" % sorted(map(str, h))[0])
    if not n:
        ctx.unk("access under lock", "shared event buffer", "", "no access to a shared buffer found")


class Tracked(Entry):
    def __init__(self, ctx, f, models, track, cell):
        def setup(E):
            cell.append(E.s)
            E.obj = E.s.sym_object(f["cls"], "obj") if f["kind"] in ("method", "dtor") and f.get("cls") in E.s.p.rec_by_q and not f.get("st") else None

        def args(E):
            return [arg(E.s, TyRef(f["_m"], p["t"]), "p%d" % i) for i, p in enumerate(f["params"])]
        super().__init__(ctx, f, lambda E: E.obj, args, setup, models, {"track": track})


def norm(root):
    return re.sub(r"#\d+", "", root)


def entities(E, g, datum=None):
    out = set()
    for r in g.args:
        if isinstance(r, Node) and r.op == "ref" and not re.match(r"\d+:", r.args[0]) and r.args[0] not in E.s.tls:
            out.add((norm(r.args[0]), r.args[1]))
    return out


def held(E, acc):
    """mutexes held on every path reaching an access"""
    out = set()
    c = acc.cond()
    for l in E.events:
        if l.kind != "lock" or l.seq > acc.seq or l.data["mutex"] is None or l.data["mutex"].op != "guard":
            continue
        if l.data.get("shared") and acc.data["write"]:
            continue
        if implies(c, l.cond())[0] is not True:
            continue
        for m in entities(E, l.data["mutex"]):
            if not any(u.kind == "unlock" and l.seq < u.seq < acc.seq and u.data["mutex"] is not None and u.data["mutex"].op == "guard"
                       and m in entities(E, u.data["mutex"]) and and_(u.cond(), c) is not FALSE for u in E.events):
                out.add(m)
    return out


def unclear(E):
    g = sum(e.kind == "guard" for e in E.events)
    known = sum(e.kind == "temporary guard" or (e.kind == "lock" and "shared" in e.data) for e in E.events)
    return g > known or any(e.kind == "lock" and (e.data["mutex"] is None or e.data["mutex"].op != "guard") for e in E.events) \
        or any(e.kind == "unknown" and "lock" in e.data.get("name", "") for e in E.events)


# ------------------------------------------------------------------------------------------------ T02
def the_buffer(ctx, f, names, et, rule):
    """(E, root, field, value before) of the event buffer of a method, or None"""
    E = call(ctx, f)
    if E.dead:
        ctx.bad(rule, f["q"], f["q"], "never returns")
        return None
    out = []
    for root, v in E.mem0.items():
        if v.op == "rec":
            for n, x in zip(v.args[1], v.args[2:]):
                if n in names and x.op == "list" and x.args[0] == et.key:
                    out.append((root, n, x))
    if len(out) != 1:
        ctx.unk(rule, f["q"], f["q"], "%d event buffers found" % len(out))
        return None
    return (E,) + out[0]


def scene(ctx, f, root, name, segs):
    """the method run on a buffer with the given content; (entry, buffer afterwards)"""
    def setup(E):
        E.obj = E.s.sym_object(f["cls"], "obj")
        v = E.s.st.mem[root]
        E.s.st.mem[root] = rset(v, name, mk("list", fields_of(v)[name].args[0], *segs, sort="o"))
    E = Entry(ctx, f, lambda E: E.obj, lambda E: [arg(E.s, TyRef(f["_m"], p["t"]), "p%d" % i) for i, p in enumerate(f["params"])], setup, None, {"unroll": 12})
    v = E.s.st.mem.get(root) if not E.dead else None
    return E, (fields_of(v)[name] if v is not None else None)


def event_sym(ctx, et, i):
    s = Session(ctx.prog())
    s.begin(et.m)
    return s.sym(et, "stored", (num(i),))


def by_case(x, c=TRUE, depth=0):
    """(condition, list without conditional segments) of a buffer value; None for parts that are not lists"""
    if x.op == "gite":
        yield from by_case(x.args[1], and_(c, x.args[0]), depth)
        yield from by_case(x.args[2], and_(c, not_(x.args[0])), depth)
        return
    if x.op == "list" and depth < 6:
        for i, g in enumerate(x.args[1:]):
            if g[0] == "if":
                one = mk("list", x.args[0], *x.args[1:1 + i], ("one", g[2]), *x.args[2 + i:], sort="o")
                none = mk("list", x.args[0], *x.args[1:1 + i], *x.args[2 + i:], sort="o")
                yield from by_case(one, and_(c, g[1]), depth + 1)
                yield from by_case(none, and_(c, not_(g[1])), depth + 1)
                return
    if c is not FALSE:
        yield c, x


def names_of(l, known):
    out = []
    for g in l.args[1:]:
        out.append(known.get(g[1], None))
    return None if None in out else out


def t02(ctx):
    P = ctx.prog()
    f, et, names, holders = shared_data(ctx)
    R = the_buffer(ctx, f, names, et, "submission")
    if R is None:
        return
    E, root, name, before = R
    ev = None
    for i, p in enumerate(f["params"]):
        t = TyRef(f["_m"], p["t"])
        if t.kind == "rec" and t.key == et.key:
            ev = E.s.sym(t, "in", ("p%d" % i,))
    stored = [event_sym(ctx, et, i) for i in range(4)]
    mid = mk("stored-middle", sort="o")
    known = {v: "event %d" % i for i, v in enumerate(stored)}
    known[mid] = "the middle"
    known[ev] = "the submitted event"

    def content(n):
        """a buffer of n events"""
        if n <= 3:
            FIXED.pop(mid, None)
            return [("one", v) for v in stored[:n]]
        FIXED[mid] = num(n - 3)
        return [("one", stored[0]), ("one", stored[1]), ("sym", mid), ("one", stored[2])]

    def outcome(n):
        """what a submission to a buffer of n events does: keep | drop | descriptions of what is wrong | None"""
        segs = content(n)
        E, v = scene(ctx, f, root, name, segs)
        if E.dead:
            return ["does not return"]
        if E.pc() is not TRUE:
            return ["returns only when " + brief(E.pc(), 100)]
        keep = mk("list", et.key, *segs, ("one", ev), sort="o")
        drop = mk("list", et.key, *segs[1:], ("one", ev), sort="o")
        res = set()
        for c, l in by_case(v):
            if l is keep or l is drop:
                res.add("keep" if l is keep else "drop")
                continue
            ns = names_of(l, known) if l.op == "list" and all(g[0] in ("one", "sym") for g in l.args[1:]) else None
            if ns is None:
                return None
            at = "" if c is TRUE else " when " + brief(c, 100)
            return ["afterwards holds %s%s" % (", ".join(ns) or "nothing", at)]
        return res.pop() if len(res) == 1 else None

    # candidates for the bound: the constants the buffer's size is compared with on any path
    seen = set()
    conds = [E.pc()] + [c for c, _ in by_case(fields_of(E.s.st.mem[root])[name])] + [e.cond() for e in E.events] + [pc_cond(o[2]) for o in E.s.obl] \
        + [z for l in E.s.loops for z in loop_conds(l)]
    for c in conds:
        for l in atoms_of(c, lambda z: z.op == "lit" and contains(z, lambda y: y.op == "size")):
            seen |= {int(x) for x in bounds_in(l)}
    cands = sorted({x + d for x in seen for d in (-2, -1, 0, 1, 2) if x + d >= 1})
    cap, odd = None, None
    for n in [0, 1, 2, 3] + [c for c in cands if c > 3]:
        r = outcome(n)
        if r is None:
            odd = odd or n
            continue
        if isinstance(r, list):
            ctx.bad("stores last, evicts the oldest", "submission to a buffer of %d events (event 0 is the oldest)" % n, f["q"], r[0])
            return
        ctx.expect(True, "stores last, evicts the oldest", "submission to a buffer of %d events" % n, f["q"], "")
        if r == "drop" and n >= 1:
            cap = n
            break
    if odd is not None:
        ctx.unk("submission", "submission to a buffer of %d events" % odd, f["q"], "content is outside the model")
        return
    if cap is None:
        pops = [e for e in E.events if e.kind in ("pop", "clear", "unknown")]
        if not pops and not E.s.loops:
            ctx.bad("bounded", "buffer size", f["q"], "no submission ever evicts an event")
        elif pops and len(pops) == 1 and pops[0].kind == "pop" and not E.s.loops and seen:
            ctx.bad("bounded", "buffer size", f["q"], "evicts when %s, which keeps the size within no fixed bound" % brief(pops[0].cond(), 120))
        else:
            ctx.unk("bounded", "buffer size", f["q"], "no eviction found at sizes near %s" % sorted(seen)[:6])
        return
    ctx.expect(True, "bounded", "at most %d events are kept" % cap, f["q"], "")
    if cap > 4:
        # every smaller buffer keeps all its events
        FIXED.pop(mid, None)
        size = mk("size", mid, sort="i")
        set_bounds(size, 1, num(cap - 3))
        segs = [("one", stored[0]), ("one", stored[1]), ("sym", mid), ("one", stored[2])]
        E2, v = scene(ctx, f, root, name, segs)
        keep = mk("list", et.key, *segs, ("one", ev), sort="o")
        ok = not E2.dead and all(l is keep for c, l in by_case(v))
        if ok:
            ctx.expect(True, "nothing evicted below the bound", "buffers of 4 to %d events" % (cap - 1), f["q"], "")
        else:
            wrong = [] if E2.dead else [(c, l) for c, l in by_case(v) if l is not keep]
            ctx.unk("nothing evicted below the bound", "buffers of 4 to %d events" % (cap - 1), f["q"], "; ".join("%s when %s" % (brief(l, 100), brief(c, 100)) for c, l in wrong[:2]))


def loop_conds(l):
    out = []
    for x in (l.__dict__.values() if hasattr(l, "__dict__") else l.values() if isinstance(l, dict) else l if isinstance(l, (tuple, list)) else ()):
        if isinstance(x, Node):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            out += [y for y in x if isinstance(y, Node)]
    return out


def bounds_in(l):
    out = []
    for a in l.args:
        if isinstance(a, Node) and a.op == "num":
            out.append(a.args[0])
        elif isinstance(a, (int,)):
            out.append(a)
        elif isinstance(a, tuple):
            todo = list(a)
            while todo:
                b = todo.pop()
                if isinstance(b, tuple):
                    todo += list(b)
                elif isinstance(b, Node) and b.op == "num":
                    out.append(b.args[0])
                elif hasattr(b, "numerator") and not isinstance(b, bool):
                    out.append(b)
    return [x for x in out if x == x and abs(x) != float("inf")]


# ------------------------------------------------------------------------------------------------ T03
def unit_of(t):
    m = re.search(r"std::ratio<1(?:, ?(\d+))?>", t)
    if m:
        return int(m.group(1) or 1)
    return {"std::chrono::nanoseconds": 10**9, "std::chrono::microseconds": 10**6, "std::chrono::milliseconds": 1000, "std::chrono::seconds": 1}.get(t)


def ticks(v):
    """a tick count as (what, unit per second): what = ("since", t) or ("diff", end, start)"""
    if v.op == "chrono:count":
        x = v.args[0]
        unit = None
        while True:
            if x.op == "chrono:duration_cast":
                unit = unit_of(x.args[0]) or -1 if unit is None else unit
                x = x.args[1]
            elif x.op == "chrono:ctor" and len(x.args) == 2:
                unit = unit_of(x.args[0]) or -1 if unit is None else unit
                x = x.args[1]
            else:
                break
        if unit is None:
            unit = 10**9        # native period of the system clock
        if x.op == "chrono:time_since_epoch":
            return ("since", x.args[0]), unit
        if x.op in ("chrono:arith-", "chrono:operator-"):
            a = [z for z in x.args if isinstance(z, Node)]
            return ("diff", a[0], a[1]), unit
    return None, None


def t03(ctx):
    P = ctx.prog()
    f, et, names, holders = shared_data(ctx)
    dt = P.fn(NS + "scoped_trace::~scoped_trace")
    ct = P.fn(NS + "scoped_trace::scoped_trace", pred=lambda g: g.get("body"))
    got = []

    def submit(ip, e):
        ip.ev(e["obj"]) if e["ck"] == "mem" else None
        got.append((ip.event("submit", e), [ip.rv(a) for a in e["args"]]))
        return UNSET
    loc = dt["q"]

    def setup(E):
        t = TyRef(ct["_m"], ct["clst"])
        args = []
        for i, p in enumerate(ct["params"]):
            args.append(arg(E.s, TyRef(ct["_m"], p["t"]), "name%d" % i))
        E.name = args[0]
        v = E.s.construct(ct, [], t, {"l": ct.get("l"), "f": ct.get("f")}, args)
        E.o0 = v
        E.start = [e for e in E.s.events if e.kind == "clock"]
        E.cut = E.s.seq
        E.obj = E.s.root("obj", v)
    E = Entry(ctx, dt, lambda E: E.obj, (), setup, {f["q"]: submit})
    if E.dead:
        ctx.bad("one event", "leaving a scope", loc, "never returns")
        return
    nows = atoms_of(E.o0, lambda n: n.op == "now")
    if len(nows) != 1:
        (ctx.bad if not nows else ctx.unk)("start time", "construction", ct["q"], "the time of construction is stored %d times" % len(nows))
        return
    start = next(iter(nows))
    subs = [(e, a) for e, a in got if e is not None]
    unc = mk("ambient:uncaught_exceptions", sort="i")
    conds = [e.cond() for e, _ in subs]
    allc = or_(*conds)
    amb = {a.op for c in conds for a in atoms_of(c, lambda n: n.op.startswith("ambient:") or n.op in ("fld", "in", "opq"))}
    nulls = [n for n in tests_in(allc, "nonnull")]
    if amb - {"ambient:uncaught_exceptions"} - ({"in", "fld"} if nulls else set()):
        ctx.unk("one event", "condition for submitting", loc, "submits when " + brief(allc, 160))
    else:
        from .rec import with_atoms
        ctx.eq("no event on exceptions", "submits exactly when no exception is in flight", with_atoms(allc, {n: True for n in nulls}), leq(unc, ZERO), loc, geq(unc, ZERO))
        for i in range(len(conds)):
            for j in range(i):
                ctx.eq("one event", "no two events for one scope", and_(conds[i], conds[j]), FALSE, loc)
    if not subs:
        ctx.bad("one event", "leaving a scope", loc, "no event is submitted")
    want = ("name", "ts", "pid", "tid", "dur_ns")
    for e, a in subs:
        v = next((x for x in a if x.op == "rec"), None)
        if v is None:
            ctx.unk("event", "submitted event", e.loc, "event is " + brief(a[0], 120) if a else "nothing")
            continue
        k = fields_of(v)
        if set(want) - set(k):
            ctx.unk("event", "submitted event", e.loc, "event has fields %s" % ", ".join(k))
            continue
        nm = E.s.val(E.name)
        nv = k["name"]
        ctx.expect(nv is nm or literal_view(nv) is nm, "event name", "name given at construction", e.loc, "name is " + brief(nv, 120))
        t, u = ticks(k["ts"])
        if t is None:
            ctx.unk("start time", "time stamp in microseconds", e.loc, "time stamp is " + brief(k["ts"], 160))
        else:
            ctx.expect(t == ("since", start) and u == 10**6, "start time", "time stamp in microseconds", e.loc,
                       "time stamp is %s in ticks of 1/%s s" % (brief(k["ts"], 160), u))
        t, u = ticks(k["dur_ns"])
        if t is None:
            ctx.unk("elapsed time", "duration in nanoseconds", e.loc, "duration is " + brief(k["dur_ns"], 160))
        else:
            ok = t[0] == "diff" and t[1].op == "now" and t[1] is not start and t[2] is start and u == 10**9
            ctx.expect(ok, "elapsed time", "duration in nanoseconds, from construction to destruction", e.loc,
                       "duration is %s in ticks of 1/%s s" % (brief(k["dur_ns"], 160), u))
        for fld, ok, what in (("pid", ("ambient:getpid", "once:ambient:getpid"), "process id"), ("tid", ("ambient:syscall", "ambient:gettid"), "thread id of the current thread")):
            x = k[fld]
            good = x.op in ok and (x.op != "ambient:syscall" or (len(x.args) == 1 and x.args[0] is num(186)))
            known = x.op.startswith("ambient:") or x.op.startswith("once:") or x.op in ("num", "unset", "uninit") or is_field_of(x, E.o0)
            (ctx.expect if good or known else lambda *z: ctx.unk(*z[1:]))(good, fld, what, e.loc, "%s is %s" % (fld, brief(x, 100)))
    # lifetime of names
    r = P.rec_by_q[NS + "scoped_trace"][0]
    er = P.rec_by_q[et.key][0]
    en = next((TyRef(er["_m"], x["t"]) for x in er["fields"] if x["n"] == "name"), None)
    if en is not None and en.kind != "str":
        for x in r["fields"]:
            t = TyRef(r["_m"], x["t"])
            ctx.expect(t.kind != "str", "static names", "field %s" % x["n"], r["q"], "events keep a view of a string that dies with the scope")
        sites = 0
        for g in P.funcs.values():
            if not g.get("in") or not g.get("body"):
                continue
            for c in ctor_sites(g["body"], ct["q"]):
                sites += 1
                s = static_text(c["args"][0]) if c["args"] else False
                l = "%s:%s" % (g["q"], c.get("l"))
                if s is None:
                    ctx.unk("static names", "name of the scope traced in %s" % g["q"], l, "argument is not a string literal")
                else:
                    ctx.expect(s, "static names", "name of the scope traced in %s" % g["q"], l, "the name is a temporary string")
        ctx.expect(True, "static names", "%d traced scopes" % sites, "", "")


def is_field_of(x, o):
    return x in o.args


def literal_view(v):
    return v.args[0] if v.op.startswith("obj:") and len(v.args) == 1 else v


def ctor_sites(body, q):
    out, todo = [], [body]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "ctor" and isinstance(x.get("fn"), dict) and x["fn"].get("q") == q:
                out.append(x)
            todo += list(x.values())
        elif isinstance(x, (list, tuple)):
            todo += list(x)
    return out


def static_text(e):
    """True: a literal; False: text owned by a temporary or local; None: unknown"""
    while isinstance(e, dict):
        if e.get("k") == "str":
            return True
        q = (e.get("fn") or {}).get("q", "") if isinstance(e.get("fn"), dict) else ""
        if "basic_string<" in q and "basic_string_view" not in q.split("::")[-1]:
            return False
        if e.get("k") == "ctor" and len(e.get("args") or []) >= 1:
            e = e["args"][0]
        elif e.get("k") in ("cast", "paren", "temp", "dinit", "ictor", "bind") and isinstance(e.get("e"), dict):
            e = e["e"]
        elif e.get("k") == "ilist" and len(e.get("args") or e.get("e") or []) == 1:
            e = (e.get("args") or e.get("e"))[0]
        else:
            return None
    return None


# ------------------------------------------------------------------------------------------------ T04
def t04(ctx):
    P = ctx.prog()
    f, et, names, holders = shared_data(ctx)
    g = P.fn(NS + "trace_collector::get_trace_json")
    R = the_buffer(ctx, g, names, et, "document")
    if R is None:
        return
    E, root, name, buf = R
    ctx.eq("document", "always produced", E.pc(), TRUE, g["q"])
    fm = [x for x in P.by_q.get("fmt::formatter<%s, char, void>::format" % et.key, []) if x.get("body")]
    text = None
    if fm:
        F = call(ctx, fm[0])
        try:
            text = event_text(ctx, F, et, fm[0])
        except Unreadable as x:
            ctx.unk("event object", fm[0]["q"], fm[0]["q"], str(x))
    after = fields_of(E.s.st.mem[root])[name]
    ctx.expect(after is buf, "events kept", "exporting leaves the stored events in place", g["q"], "the buffer becomes " + brief(after, 120))

    stored = [event_sym(ctx, et, i) for i in range(4)]
    index = {v: i for i, v in enumerate(stored)}

    def dec(v):
        if v.op == "fmt:join":
            return [("join", v.args[0], literal(v.args[1]))]
        return None

    def doc_of(ts):
        out = ""
        for p in ts:
            if p[0] == "lit":
                out += p[1]
            elif p[0] == "join" and p[2] is not None and p[1].op == "list" and all(z[0] == "one" for z in p[1].args[1:]):
                out += p[2].join(one(z[1]) for z in p[1].args[1:])
            elif p[0] == "arg" and p[2] == "":
                out += one(p[1])
            else:
                raise Unreadable("conditional or unknown text in the document")
        return out

    def one(v):
        if v in index and text is not None:
            return text(index[v])
        if v.op == "list" and v.args[0] == "str":
            return doc_of(tokens(v, dec))
        # fields of a stored event printed in place
        for x, i in index.items():
            fs = fields_of(x)
            for k, z in fs.items():
                if z is v:
                    return "\u00a7%d.name" % i if k == "name" else str(mark(i, k)) if k in FIELDS else "8000000"
            if "dur_ns" in fs and v is fun("idiv", fs["dur_ns"], num(1000)):
                return str(mark(i, "dur"))
        if v.op == "num":
            return str(v.args[0])
        raise Unreadable("document prints " + brief(v, 100))
    for n in range(4):
        what = "%d stored event%s" % (n, "" if n == 1 else "s")
        evs = stored[:n]
        S, _ = scene(ctx, g, root, name, [("one", v) for v in evs])
        if S.dead:
            ctx.bad("document", what, g["q"], "never returns")
            continue
        try:
            d = doc_of(tokens(S.ret, dec))
        except Unreadable as x:
            ctx.unk("document", what, g["q"], str(x))
            continue
        try:
            d = _json.loads(d)
        except ValueError as x:
            ctx.bad("well-formed", what, g["q"], "document is not JSON: %s" % x)
            continue
        ctx.expect(True, "well-formed", what, g["q"], "")
        objs = d.get("traceEvents") if isinstance(d, dict) else None
        if not isinstance(objs, list):
            ctx.bad("wrapper", what, g["q"], "no list under traceEvents")
            continue
        ctx.expect(d.get("displayTimeUnit") == "ns", "wrapper", what + ": display unit", g["q"], "displayTimeUnit is %r" % d.get("displayTimeUnit"))
        ctx.expect(len(objs) == n, "complete", what, g["q"], "%d objects are written" % len(objs))
        for i, x in enumerate(objs[:n]):
            if not isinstance(x, dict):
                ctx.bad("event object", what, g["q"], "entry is not an object")
                continue
            for k, w in (("name", "\u00a7%d.name" % i), ("ph", "X"), ("ts", mark(i, "ts")), ("pid", mark(i, "pid")), ("tid", mark(i, "tid")), ("dur", mark(i, "dur"))):
                ctx.expect(x.get(k) == w and type(x.get(k)) is type(w), "event object", "%s of event %d of %d" % (k, i + 1, n), fm[0]["q"] if fm else g["q"],
                           "is %r, required %r" % (describe(x.get(k)), describe(w)))
    # every number of events
    try:
        js = [p for p in tokens(E.ret, dec) if p[0] != "lit"]
    except Unreadable as x:
        ctx.unk("every event, oldest first", "any number of events", g["q"], str(x))
        return
    if len(js) == 1 and js[0][0] == "join" and js[0][2] is not None and js[0][1] is buf:
        ctx.expect(True, "every event, oldest first", "any number of events", g["q"], "")
    elif not any(o[0] is False for o in ctx.obs):
        ctx.unk("every event, oldest first", "any number of events", g["q"], "the document is not one joined list of the stored events")


FIELDS = ("ts", "pid", "tid", "dur", "dur_ns")


def mark(i, k):
    return 7000000 + 100 * i + FIELDS.index(k)


def describe(v):
    if isinstance(v, int) and v >= 7000000:
        return "<%s of event %d>" % (FIELDS[(v - 7000000) % 100], (v - 7000000) // 100 + 1)
    return v


def event_text(ctx, F, et, f):
    if F.dead:
        raise Unreadable("formatter never returns")
    toks = tokens(F.s.st.mem.get("fmt.out", lst("str")), lambda v: None)
    i = next(i for i, p in enumerate(f["params"]) if TyRef(f["_m"], p["t"]).key == et.key)
    ev = fields_of(F.s.st.mem["p%d" % i])
    us = fun("idiv", ev["dur_ns"], num(1000)) if "dur_ns" in ev else None
    out = []
    for t in toks:
        if t[0] == "lit":
            out.append(t[1])
            continue
        if t[0] != "arg":
            raise Unreadable("conditional text in an event")
        v, spec = t[1], t[2]
        if spec not in ("", "d", "s"):
            raise Unreadable("format specification " + spec)
        k = next((n for n, x in ev.items() if x is v), None)
        if v is us or (us is not None and v is div(ev["dur_ns"], num(1000))):
            out.append(("dur",))
        elif k == "name":
            out.append(("name",))
        elif k in FIELDS:
            out.append((k,))
        elif v.op == "num":
            out.append(str(v.args[0]))
        elif contains(v, lambda n: n in ev.values()) and v.op not in ("opq",):
            out.append(("other", brief(v, 80)))
        else:
            raise Unreadable("event text prints " + brief(v, 100))

    def text(i):
        r = ""
        for x in out:
            if isinstance(x, str):
                r += x
            elif x[0] == "name":
                r += "\u00a7%d.name" % i
            elif x[0] == "other":
                r += "8000000"
            else:
                r += str(mark(i, x[0]))
        return r
    return text


RULES = {"T01": t01, "T02": t02, "T03": t03, "T04": t04}
