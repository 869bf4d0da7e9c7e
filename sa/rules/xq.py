"""Whole-program queries: T05 (switches), X01 (shared state), X03 (assertions), X05 (format strings), X06 (noexcept)."""
import re
from .qp2 import *
from .. import query as Q
from ..query import CallGraph, base, callees, lib_fns, nodes, own, place, strip, subnodes, writes
from ..interp import TyRef

LIB = "assert::default_error"
BOTH = ("MINI_OPT_SERIALIZATION", "MINI_OPT_TRACING")


# ------------------------------------------------------------------------------------------------ T05
def canon(x, m, ids):
    """a tree with positions removed, types spelled out and variables numbered in order of appearance"""
    if isinstance(x, list):
        return tuple(canon(v, m, ids) for v in x)
    if not isinstance(x, dict):
        return x
    out = []
    for k in sorted(x):
        v = x[k]
        if k in ("l", "f", "el", "_m", "tu", "f_"):
            continue
        if k == "id" and isinstance(v, int):
            v = ids.setdefault(v, len(ids))
        elif k in ("t", "at", "clst", "ret", "base") and isinstance(v, int):
            r = m.types[v] if v >= 0 else {}
            v = (r.get("s"), r.get("r"), r.get("c"))
        elif k == "ps":
            v = tuple((m.types[i].get("s"), m.types[i].get("r"), m.types[i].get("c")) if i >= 0 else None for i in v)
        elif k == "in" or k == "cap":
            continue
        else:
            v = canon(v, m, ids)
        out.append((k, v))
    return tuple(out)


def is_scope(d, m, scoped):
    """declaration of a trace scope named by a literal"""
    t = m.types[d["t"]] if isinstance(d.get("t"), int) and d["t"] >= 0 else {}
    if t.get("rec") not in scoped or t.get("r"):
        return False
    for n in subnodes(d.get("init") or {}):
        if n["k"] not in ("ctor", "str", "cast", "ilist", "dinit", "un", "int") and not (n["k"] == "ref" and n.get("n") in ("__func__", "__FUNCTION__", "__PRETTY_FUNCTION__")):
            return False
    return True


def without_scopes(x, m, scoped, count):
    if isinstance(x, list):
        out = []
        for v in x:
            if isinstance(v, dict) and v.get("k") == "decl" and v["d"] and all(is_scope(d, m, scoped) for d in v["d"]):
                count[0] += 1
                continue
            if isinstance(v, dict) and v.get("k") == "null_s":
                continue
            out.append(without_scopes(v, m, scoped, count))
        return out
    if isinstance(x, dict):
        r = {}
        for k, v in x.items():
            if k == "_m":
                continue
            w = without_scopes(v, m, scoped, count) if isinstance(v, (dict, list)) else v
            if isinstance(w, dict) and w.get("k") == "decl" and w["d"] and all(is_scope(d, m, scoped) for d in w["d"]):
                count[0] += 1
                w = {"k": "blk", "s": []}
            if isinstance(w, dict) and w.get("k") == "null_s":
                w = {"k": "blk", "s": []}
            r[k] = w
        if r.get("k") == "blk":
            r.pop("el", None)
        return r
    return x


def first_diff(a, b, at=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        da, db = dict_of(a), dict_of(b)
        if da is not None and db is not None:
            for k in sorted(set(da) | set(db)):
                if da.get(k) != db.get(k):
                    return first_diff(da.get(k), db.get(k), k)
        for x, y in zip(a, b):
            if x != y:
                return first_diff(x, y, at)
        return "%s: %d against %d parts" % (at, len(a), len(b))
    return "%s: %s against %s" % (at, str(a)[:100], str(b)[:100])


def dict_of(t):
    if t and all(isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], str) for z in t):
        return dict(t)
    return None


def scope_records(P):
    """types of objects that submit an event when they are destroyed"""
    out = set()
    cg = CallGraph(P)
    for f in lib_fns(P):
        if f.get("kind") == "dtor" and any(P.funcs[u]["n"] == "submit_event" for u in cg.reach(f)):
            out.add(f["_m"].types[f["clst"]].get("rec"))
    return out


def t05(ctx):
    plain = ctx.prog(defs=())
    base_fns = {f["u"]: f for f in lib_fns(plain)}
    for defs in (("MINI_OPT_TRACING",), ("MINI_OPT_SERIALIZATION",), BOTH):
        P = ctx.prog(defs=defs)
        name = " + ".join(d.replace("MINI_OPT_", "").lower() for d in defs)
        scoped = scope_records(P)
        fns = {f["u"]: f for f in lib_fns(P)}
        for u, f in sorted(base_fns.items()):
            g = fns.get(u)
            if g is None:
                ctx.bad("same functions", "%s with %s" % (f["q"], name), f["q"], "is not compiled")
                continue
            n = [0]
            head = lambda z: {k: v for k, v in z.items() if k in ("params", "ret", "nt", "cm", "st", "virt", "kind", "acc")}
            a = canon([head(f), f.get("inits"), without_scopes(f.get("body"), f["_m"], set(), n)], f["_m"], {})
            b = canon([head(g), g.get("inits"), without_scopes(g.get("body"), g["_m"], scoped, n)], g["_m"], {})
            if a == b:
                ctx.expect(True, "same code", "%s with %s" % (f["q"], name), f["q"], "")
            else:
                ctx.bad("same code", "%s with %s" % (f["q"], name), "%s (%s)" % (place(g), f["q"]), "differs beyond trace scopes: " + str(first_diff(a, b)))
        for u, r in sorted(plain.records.items()):
            if not own(r):
                continue
            s = P.records.get(u)
            if s is None:
                ctx.bad("same types", "%s with %s" % (r["q"], name), r["q"], "is not declared")
                continue
            fa, fb = ([canon({k: v for k, v in x.items() if k in ("n", "t", "init", "mut", "acc")}, z["_m"], {}) for x in z["fields"]] for z in (r, s))
            ctx.expect(fa == fb, "same types", "%s with %s" % (r["q"], name), r["q"], "has other members: " + str(first_diff(tuple(fa), tuple(fb))))
        for u, e in sorted(plain.enums.items()):
            s = P.enums.get(u)
            ctx.expect(s is not None and [(x["n"], x["v"]) for x in e["e"]] == [(x["n"], x["v"]) for x in s["e"]], "same types", "%s with %s" % (u, name), u, "has other enumerators")
        for u, v in sorted(plain.globals.items(), key=lambda z: str(z[0])):
            if not own(v) or v.get("sl"):
                continue
            w = P.globals.get(u)
            ctx.expect(w is not None and canon(v.get("init"), v["_m"], {}) == canon(w.get("init"), w["_m"], {}), "same constants", "%s with %s" % (v["q"], name), v["q"], "has another initial value")


# ------------------------------------------------------------------------------------------------ X01
AMBIENT = re.compile(r"^(std::chrono::[\w:]*clock::now|std::(s?rand|time|clock|getenv|random_device.*|default_random_engine.*|mersenne_twister_engine.*|linear_congruential_engine.*)"
                     r"|s?rand|rand_r|random|srandom|[dlm]rand48|time|clock|clock_gettime|gettimeofday|getenv|secure_getenv|getpid|gettid|getppid|syscall|getrandom|sysconf|uname|gethostname|times|getrusage"
                     r"|std::this_thread::get_id|std::thread::(get_id|hardware_concurrency)|pthread_self|std::uncaught_exceptions?|std::setlocale|setlocale|std::locale::global"
                     r"|Eigen::(DenseBase|MatrixBase|PlainObjectBase|SetupProxy)?.*::(Random|setRandom)|Eigen::nbThreads|Eigen::setNbThreads|std::(fopen|fgets|fread|fscanf|scanf|getline)|fopen|fgets|fread|open|read"
                     r"|std::basic_[io]*fstream<.*|std::atomic<.*)$")
SYNC = re.compile(r"^(std::(recursive_|shared_|timed_)*mutex|std::once_flag)$")


def names_local(e, f):
    """parameters, locals or the object itself, read by an initialiser"""
    for n in subnodes(e):
        if n["k"] == "this":
            return "this object"
        if n["k"] == "ref" and n.get("dk") in ("parm", "bind") or (n["k"] == "ref" and n.get("dk") == "var" and not n.get("g") and "cv" not in n and "cf" not in n):
            return n["n"]
    return None


def x01(ctx):
    P = ctx.prog(defs=("MINI_OPT_SERIALIZATION",))
    ctx.assumptions.append("standard-library, Eigen and fmt calls keep no hidden mutable state beyond the sources listed in the rule")
    fns = lib_fns(P)
    for f in fns:
        ctx.functions.add(f["q"])
    # variables with static storage
    seen = set()
    for g in P.globals.values():
        if not own(g):
            continue
        t = TyRef(g["_m"], g["t"])
        seen.add(g["q"])
        where = place(g)
        what = "%s%s" % (g["q"], " in " + g["infn"] if g.get("infn") else "")
        if SYNC.match(t.q or ""):
            ctx.unk("no static state", what, where, "a lock is shared by all objects")
        elif not g.get("const") and not g.get("cx"):
            ctx.bad("no static state", what, where, "is a mutable variable with %s storage" % ("thread" if g.get("tls") else "static"))
        elif re.match(r"std::atomic<", t.raw["s"]):
            ctx.bad("no static state", what, where, "is an atomic variable with static storage")
        elif g.get("sl") and g.get("init") and lambda_free(g["init"]) and names_local(g["init"], None):
            ctx.bad("no static state", what, where, "keeps the value of %s from the first call" % names_local(g["init"], None))
        else:
            ctx.expect(True, "no static state", what, where, "")
    # mutable members written where objects are shared as const
    muts = {}
    eff = Q.Effects(P)
    for r in P.records.values():
        if own(r):
            for x in r["fields"]:
                if x.get("mut"):
                    muts[x["q"]] = (r, x)
    for f in fns:
        # sources of non-determinism
        for n, c in callees(f):
            ctx.callsites += 1
            if AMBIENT.match(c["q"]) or AMBIENT.match(re.sub(r"<.*?>", "", c["q"])):
                ctx.bad("no ambient input", "call of %s in %s" % (c["q"], f["q"]), place(f, n), "the result depends on the clock, a random source, the process or the environment")
        for n in nodes(f):
            if n["k"] == "ref" and n.get("g") and not n.get("in") and n.get("dk") == "var":
                t = TyRef(f["_m"], n["t"])
                if n["q"] in ("std::cin", "std::wcin"):
                    ctx.bad("no ambient input", "%s in %s" % (n["q"], f["q"]), place(f, n), "reads standard input")
                elif not t.const and n["q"] not in ("std::nullopt", "std::ignore", "std::cout", "std::cerr", "std::clog", "std::in_place", "std::nothrow") and not n["q"].startswith("std::") and "cv" not in n:
                    ctx.unk("no ambient input", "%s in %s" % (n["q"], f["q"]), place(f, n), "variable of another library")
            if n["k"] == "cast" and n.get("x") == "reinterpret" and "IntegralToPointer" not in n.get("ck", "") and n.get("ck") == "PointerToIntegral":
                ctx.unk("no ambient input", f["q"], place(f, n), "uses the value of a pointer")
        # writes
        shared = const_access(P, f, muts, eff)
        for bad, what, where, why in shared:
            (ctx.bad if bad else ctx.unk)("no writes to shared objects", what, where, why)
        if not shared:
            ctx.expect(True, "no writes to shared objects", f["q"], f["q"], "")


def lambda_free(e):
    return True


def const_access(P, f, muts, eff):
    """writes of a function through constness: const_cast, mutable members, pointers held by a const object"""
    out = []
    refs = Q.ref_vars(f)
    m = f["_m"]
    for e, n, how in writes(f):
        how = eff.resolve(n, how)
        if how is None or e["k"] in ("new", "delete"):
            continue
        root, allsteps, exprs = Q.root_of(e, refs)
        # const_cast on the way
        for z in exprs:
            for c in chain(z):
                if c["k"] == "cast" and c.get("x") in ("const", "c"):
                    t, t0 = m.types[c["t"]], type_of(c["e"], m)
                    if loses_const(t, t0, m, c):
                        out.append((how == "write", "%s writes %s" % (f["q"], text(e)), place(f, n), "after casting away const"))
        # mutable member of an object reached as const
        for c in [c for z in exprs for c in chain(z)]:
            if c["k"] == "mem" and c.get("q") in muts:
                r, x = muts[c["q"]]
                if SYNC.match(TyRef(r["_m"], x["t"]).q or ""):
                    continue
                b = strip(c["b"])
                if f.get("cm") or (b["k"] != "this" and type_of(b, m).get("c")):
                    out.append((how == "write", "%s writes %s" % (f["q"], c["q"]), place(f, n), "a mutable member of an object that may be shared as const"))
        # const methods of a shared object writing to what its members point to
        if f.get("cm") and root["k"] == "this" and how == "write" and not f.get("lam") and "operator()" != f["n"]:
            ms = [s for s in allsteps if isinstance(s, tuple) and s[0] in (".", "->")]
            deref = [s for s in allsteps[1:] if s == "*" or (isinstance(s, tuple) and (s[0] == "->" or (s[0] == "()" and s[1] in ("operator*", "operator->", "get"))))]
            if deref and ms:
                out.append((True, "%s writes %s" % (f["q"], text(e)), place(f, n), "a const method changes data its object points to"))
    return out


def chain(e):
    """nodes on the way from an lvalue expression to its root"""
    while isinstance(e, dict):
        yield e
        k = e["k"]
        if k in ("cast", "dinit", "un"):
            e = e["e"]
        elif k == "mem":
            e = e["b"]
        elif k in ("idx", "asg"):
            e = e["a"]
        elif k == "call" and e.get("ck") == "mem":
            e = e["obj"]
        elif k == "call" and isinstance(e.get("fn"), dict) and e["args"] and (e["ck"] == "op" or e["fn"]["n"] in Q.VIEWS):
            e = e["args"][0]
        else:
            return


def type_of(e, m):
    t = e.get("t", -1)
    return m.types[t] if isinstance(t, int) and t >= 0 and m.types[t] else {}


def loses_const(t, t0, m, c):
    if "p" in t and "p" in t0:
        return bool(m.types[t0["p"]].get("c")) and not m.types[t["p"]].get("c")
    if c.get("x") == "const":
        return bool(t0.get("c")) and not t.get("c")
    return False


def text(e):
    root, steps = base(e)
    r = {"this": "this"}.get(root["k"], root.get("n", root["k"]))
    for s in steps:
        if isinstance(s, tuple):
            r += (s[0] + s[1]) if s[0] != "()" else "." + s[1] + "()"
        else:
            r += s if s != "*" else ""
    return r


# ------------------------------------------------------------------------------------------------ X06
def throw_sites(f):
    """throw expressions that leave the function"""
    out = []

    def go(x, caught):
        if isinstance(x, list):
            for v in x:
                go(v, caught)
        elif isinstance(x, dict):
            if x.get("k") == "throw":
                if not caught:
                    out.append(x)
                return
            if x.get("k") == "try":
                go(x["s"], caught or catches_all(x))
                for h in x.get("h", ()):
                    go(h, caught)
                return
            for k, v in x.items():
                if isinstance(v, (dict, list)) and k not in ("fn", "ta"):
                    go(v, caught)
    go([f.get("inits") or [], f.get("body")], False)
    return out


def catches_all(t):
    return any(not h.get("v") and not h.get("t") for h in t.get("h", ()) if isinstance(h, dict))


def uncaught_calls(cg, f):
    """edges of the call graph that are not below a catch-all"""
    safe = set()
    for n in nodes(f):
        if n["k"] == "try" and catches_all(n):
            for z in subnodes(n["s"]):
                safe.add(id(z))
    return [(g, n) for g, n in cg.edges.get(f["u"], ()) if id(n) not in safe]


def x06(ctx):
    P = ctx.prog()
    cg = CallGraph(P)
    fns = lib_fns(P)
    throwing = {f["u"]: throw_sites(f) for f in fns}
    n_nt = 0
    for f in fns:
        if not f.get("nt"):
            continue
        n_nt += 1
        ctx.functions.add(f["q"])
        # what it reaches without passing another function that promises not to throw (those are judged themselves)
        seen, todo, hit = {f["u"]: None}, [f], []
        while todo:
            g = todo.pop()
            for t in throwing.get(g["u"], ()):
                hit.append((g, t))
            for h, n in uncaught_calls(cg, g):
                ctx.callsites += 1
                if h["u"] not in seen and not h.get("nt"):
                    seen[h["u"]] = (g["u"], n)
                    todo.append(h)
        what = "%s%s" % (f["q"], " (destructor)" if f.get("kind") == "dtor" else "")
        if not hit:
            ctx.expect(True, "throws nothing", what, place(f), "")
            continue
        why = feasible(ctx, f, hit)
        if why is None:
            ctx.expect(True, "throws nothing", what, place(f), "")
        elif why is False:
            ctx.unk("throws nothing", what, place(f), "reaches the throw in %s (%s); not decided whether its condition can fail" % (hit[0][0]["q"], place(*hit[0])))
        else:
            ctx.bad("throws nothing", what, why[0], "reaches a throw of %s through %s%s" % (why[1], cg.path(seen, why[2]) if why[2] in seen else "an assertion", why[3]))
    if not n_nt:
        raise AnchorMissing("no function promises not to throw")


def feasible(ctx, f, hit):
    """None: no throw is reachable for any input; False: unknown; else (place, type, function usr, condition)"""
    from .rec import call
    try:
        E = call(ctx, f)
    except (AnchorMissing, Undecided):
        raise
    except Exception:
        return False
    ts = [e for e in E.throws() if e.data.get("type") != "rethrow"]
    left = []
    for e in ts:
        c = e.cond()
        if c is FALSE:
            continue
        left.append((e, c))
    unknown = any(e.kind == "unknown" for e in E.events) or E.s.notes
    if not left and not unknown and not E.dead:
        return None
    for e, c in left:
        if not c.opq:
            return (e.loc, e.data.get("type"), next((g["u"] for g, t in hit if place(g, t) == e.loc), hit[0][0]["u"]), "" if c is TRUE else ", when " + brief(c, 120))
    return False


# ------------------------------------------------------------------------------------------------ X03
MACRO = re.compile(r"\bF_ASSERT(_ALWAYS|_EQ|_NE|_LT|_GT|_LE|_GE)?\s*\(")
OPS = {"_EQ": "==", "_NE": "!=", "_LT": "<", "_GT": ">", "_LE": "<=", "_GE": ">="}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def blank_comments(t):
    """the text with comments and literals replaced by blanks (positions kept)"""
    out = list(t)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|R"(\w*)\(.*?\)\1"|"(?:\\.|[^"\\\n])*"' + r"|'(?:\\.|[^'\\\n])+'", t, re.S):
        for j in range(m.start(), m.end()):
            if out[j] != "\n":
                out[j] = " "
    return "".join(out)


def macro_uses(path):
    """(line, macro suffix, condition text) of every assertion written in a source file"""
    raw = open(path).read()
    t = blank_comments(raw)
    t = re.sub(r"^[ \t]*#[^\n]*(\\\n[^\n]*)*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.M)
    out = []
    for m in MACRO.finditer(t):
        d, j, start, args = 0, m.end() - 1, m.end(), []
        while j < len(t):
            c = t[j]
            if c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
                if d == 0:
                    args.append(raw[start:j].strip())
                    break
            elif c == "," and d == 1:
                args.append(raw[start:j].strip())
                start = j + 1
            j += 1
        out.append((t.count("\n", 0, m.start()) + 1, m.group(1) or "", args))
    return out


class Site:
    """one place where an assertion message is built"""
    def __init__(self, f, n, par, P=None):
        self.unclear = None
        self.f, self.n = f, n
        self.line = n.get("l")
        self.path = f["_m"].files[n.get("f", f["f"])]
        self.where = place(f, n)
        self.throw = self.guard = self.raised = None
        self.sense = None
        x = n
        up = par
        while x is not None and id(x) in up:
            p, key = up[id(x)]
            if p.get("k") == "throw" and self.throw is None:
                self.throw = p
                e = strip(p["e"])
                self.raised = f["_m"].types[p["t"]]["s"] if isinstance(p.get("t"), int) and p["t"] >= 0 and f["_m"].types[p["t"]].get("s") != "void" else (f["_m"].types[e["t"]]["s"] if e.get("t", -1) >= 0 else None)
            if p.get("k") == "call" and self.throw is None and isinstance(p.get("fn"), dict) and P is not None:
                g = P.funcs.get(p["fn"]["u"])
                if g is not None and g.get("body") and own(g) and not g["n"].startswith("format_assert"):
                    r = always_throws(g)
                    if r:
                        self.throw, self.raised = p, r
                    elif throw_sites(g):
                        self.unclear = "passes the message to %s" % g["q"]
            if p.get("k") in ("if", "cond") and self.throw is not None and self.guard is None and key in ("a", "b"):
                if self.alone(p[key]):
                    self.guard, self.sense = p["c"], key == "a"
                break
            x = p

    def alone(self, s):
        """the branch does nothing but raise"""
        s = strip(s)
        if s.get("k") == "blk":
            return len([z for z in s["s"] if z.get("k") != "null_s"]) == 1 and self.alone([z for z in s["s"] if z.get("k") != "null_s"][0])
        return s is self.throw or s.get("k") == "throw"


def always_throws(g):
    """type of the exception a function's last top-level statement raises, if it raises one on every path"""
    def top(x):
        if x.get("k") == "blk":
            for z in x["s"]:
                r = top(z)
                if r:
                    return r
                if z.get("k") in ("ret", "if", "for", "while", "do", "switch", "try", "rfor") and any(y["k"] == "ret" for y in subnodes(z)):
                    return None
            return None
        if x.get("k") == "throw":
            m = g["_m"]
            e = strip(x["e"])
            return m.types[e["t"]]["s"] if e.get("t", -1) >= 0 else "?"
        return None
    return top(g["body"])


def parents(f):
    par = {}

    def go(x, p, key):
        if isinstance(x, dict):
            if "k" in x and p is not None:
                par[id(x)] = (p, key)
            q = x if "k" in x else p
            for k, v in x.items():
                if isinstance(v, (dict, list)) and k not in ("fn", "ta", "ps"):
                    go(v, q, k if "k" in x else key)
        elif isinstance(x, list):
            for v in x:
                go(v, p, key)
    go([f.get("inits") or [], f.get("body")], None, None)
    return par


def rtype(f, c):
    t = c.get("ret", -1)
    return str(f["_m"].types[t]["s"]) if isinstance(t, int) and t >= 0 else str(t)


def sites_of(P):
    """assertion sites of library functions: calls that build an assertion message"""
    out = []
    for f in lib_fns(P):
        if f["q"].startswith("assert::"):
            continue
        par = None
        for n, c in callees(f):
            message = (c["q"].startswith("assert::") and not c.get("cls") and "string" in rtype(f, c)
                       and not any(z["k"] == "call" and isinstance(z.get("fn"), dict) and z["fn"]["q"].startswith("assert::") and "string" in rtype(f, z["fn"])
                                   for a in n.get("args", ()) for z in subnodes(a)))
            error = (c.get("cls") == LIB and not c["n"].startswith("~") and n["k"] == "ctor" and not n.get("cp") and not n.get("mv") and not any(
                z["k"] == "call" and isinstance(z.get("fn"), dict) and z["fn"]["q"].startswith("assert::") for z in subnodes(n["args"])))
            if message or error:
                par = par if par is not None else parents(f)
                out.append(Site(f, n, par, P))
    return out


def negations(t):
    """number of '!' applied to the whole of an expression's text"""
    n = 0
    t = t.strip()
    while True:
        while t.startswith("(") and closes(t) == len(t) - 1:
            t = t[1:-1].strip()
        if not t.startswith("!") or t.startswith("!="):
            return n
        r = t[1:].strip()
        d = 0
        for i, ch in enumerate(r):
            d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(ch, 0)
            if d == 0 and (r[i:i + 2] in ("&&", "||", "==", "!=", "<=", ">=") or (ch in "<>?+*/%|^" and r[i - 1:i + 1] != "->")):
                return n
        n += 1
        t = r


def closes(t):
    d = 0
    for i, ch in enumerate(t):
        d += {"(": 1, ")": -1}.get(ch, 0)
        if d == 0:
            return i
    return -1


def holds_when(e):
    """(condition expression, whether the branch is taken when it is true)"""
    sense = True
    while True:
        e = strip(e)
        if e.get("k") == "un" and e["op"] == "!":
            sense = not sense
            e = e["e"]
        else:
            return e, sense


def raising_calls(P, fs, line):
    """function called at a line that may raise an exception of its own"""
    G = getattr(P, "_callgraph", None) or Q.CallGraph(P)
    P._callgraph = G
    for f in fs:
        for n in nodes(f):
            if n["k"] == "throw" and n.get("l") == line:
                return "a throw expression"
        for n, c in callees(f):
            if n.get("l") == line and c["u"] in P.funcs and own(P.funcs[c["u"]]):
                for u in G.reach(P.funcs[c["u"]]):
                    if u in P.funcs and any(z["k"] == "throw" for z in nodes(P.funcs[u])):
                        return c["q"]
    return None


def x03(ctx):
    P = ctx.prog()
    configs = [("release", P), ("debug", ctx.prog(flags=("-UNDEBUG", "-UEIGEN_NO_DEBUG"))), ("optimised", ctx.prog(defs=(), flags=("-O2",)))]
    per = {}
    for name, Q_ in configs:
        by = {}
        for s in sites_of(Q_):
            by.setdefault((s.path, s.line), []).append(s)
        per[name] = by
    # every assertion in the source is compiled in, in every configuration
    from .. import program as _p
    eff = Q.Effects(P)
    n_uses = 0
    for path in _p.repo_sources():
        uses = macro_uses(path)
        for name, Q_ in configs:
            spans = [(f["l"], f["el"], f) for f in lib_fns(Q_) if f["_m"].files[f["f"]] == path]
            for line, kind, args in uses:
                if not any(a <= line <= b for a, b, _ in spans):
                    continue          # code that this configuration does not contain
                n_uses += 1
                what = "%s:%d in the %s configuration" % (path[len(_p.REPO) + 1:], line, name)
                ss = per[name].get((path, line), [])
                if not ss:
                    other = raising_calls(Q_, [f for a, b, f in spans if a <= line <= b], line)
                    if other:
                        ctx.unk("always active", what, "%s:%d" % (path[len(_p.REPO) + 1:], line), "written with %s, which is not understood" % other)
                        continue
                ctx.expect(bool(ss), "always active", what, "%s:%d" % (path[len(_p.REPO) + 1:], line), "the assertion F_ASSERT%s(%s) raises nothing" % (kind, ", ".join(args)[:80]))
                if name != "release":
                    continue
                for s in ss:
                    site(ctx, s, kind, args, eff)
    # assertions that only some configuration has
    # (code in both configurations; the switches for tracing and serialization add code of their own)
    rel = {(s.f["u"], s.line) for v in per["release"].values() for s in v}
    dbg = {(s.f["u"], s.line) for v in per["debug"].values() for s in v}
    for u, l in sorted(dbg - rel):
        f = P.funcs.get(u)
        ctx.bad("always active", "assertion at line %d of %s" % (l, f["q"] if f else u), "%s:%d" % (place(f).split(":")[0] if f else "?", l), "is compiled in debug builds only")
    if not n_uses:
        raise AnchorMissing("no assertions found in the source")
    messages(ctx, P)


def site(ctx, s, kind, args, eff):
    ctx.callsites += 1
    what = "F_ASSERT%s(%s)" % (kind, ", ".join(args)[:80])
    if s.throw is None:
        if s.unclear:
            ctx.unk("raises", what, s.where, s.unclear)
            return
        ctx.bad("raises", what, s.where, "the message is built but no exception is raised")
        return
    ctx.expect(s.raised == LIB, "raises", what, s.where, "raises " + str(s.raised))
    m = s.f["_m"]
    if kind == "_ALWAYS":
        return
    if s.guard is None:
        ctx.unk("checks the condition", what, s.where, "the exception is not raised under one condition")
    else:
        c, sense = holds_when(s.guard)
        sense = sense == s.sense          # raised when c is true
        if kind not in OPS and args and negations(args[0]) % 2:
            sense = not sense             # the condition is itself negated
        if kind in OPS:
            op = c.get("op") if c.get("k") in ("bin", "call") else None
            want = OPS[kind]
            neg = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[want]
            if op in SWAP:
                good = op == want if not sense else op == neg and op in ("==", "!=")
                if not sense:
                    ctx.expect(good, "checks the condition", what, s.where, "raises unless the operands compare %s" % op)
                else:
                    (ctx.expect(good, "checks the condition", what, s.where, "raises when the operands compare %s" % op) if op == neg or op == want else
                     ctx.bad("checks the condition", what, s.where, "raises when the operands compare %s" % op))
            else:
                ctx.unk("checks the condition", what, s.where, "condition is not one comparison")
        else:
            ctx.expect(not sense, "checks the condition", what, s.where, "raises when the condition holds")
        if c.get("k") == "bin" and c["op"] in ("&&", "||") and canon(strip(c["a"]), m, {}) == canon(strip(c["b"]), m, {}):
            ctx.bad("evaluated once", what, s.where, "the condition is evaluated twice")
        else:
            ctx.expect(True, "evaluated once", what, s.where, "")
    for part, x in (("condition", s.guard), ("message", s.n["args"])):
        if x is None:
            continue
        w = impure(s.f, x, eff)
        if w is None:
            ctx.expect(True, "no side effects", "%s of %s" % (part, what), s.where, "")
        else:
            (ctx.bad if w[0] else ctx.unk)("no side effects", "%s of %s" % (part, what), s.where, w[1])
    # the message names the condition
    t = next((strip(z) for z in subnodes(s.n["args"][0]) if z["k"] == "str"), None) if s.n["args"] else None
    if t is None:
        (ctx.bad if s.n["args"] and not any(z["k"] in ("ref", "call") for z in subnodes(s.n["args"][0])) else ctx.unk)("names the condition", what, s.where, "the condition's text is not passed on")
    else:
        squeeze = lambda z: re.sub(r"[\s()]", "", z)
        want = squeeze(args[0] + OPS[kind] + args[1]) if kind in OPS else squeeze(args[0])
        ctx.expect(squeeze(t["v"]) == want, "names the condition", what, s.where, "the message says %r" % t["v"][:100])


def impure(f, x, eff):
    """(certain, description) of a modification made while evaluating an expression"""
    maybe = None
    for e, n, how in writes(f, x):
        r = eff.resolve(n, how)
        if r == "write":
            root, _ = base(e)
            if root["k"] in ("ctor", "call", "lambda", "ilist"):      # a temporary
                continue
            return True, "modifies %s" % text(e)
        if r == "maybe":
            maybe = maybe or (False, "may modify %s" % text(e))
    return maybe


def messages(ctx, P):
    """the raised exception carries a text that contains the condition"""
    from .rec import call
    for q in ("assert::format_assert", "assert::format_assert_binary"):
        for f in sorted(P.by_q.get(q, []), key=lambda z: z["u"]):
            if not f.get("body"):
                continue
            E = call(ctx, f)
            what = "%s with %d parameters" % (q, len(f["params"]))
            if E.dead or E.pc() is FALSE:
                ctx.bad("message", what, q, "never returns")
                continue
            cond = E.s.st.mem.get("p0")
            cond = cond if cond is not None else E.s.sym(TyRef(f["_m"], f["params"][0]["t"]), "in", ("p0",))
            ctx.expect(mentions(E.ret, cond), "message", what + ": contains the condition", q, "the text never mentions the condition")
    rs = P.rec_by_q.get(LIB, [])
    w = [f for f in P.by_q.get(LIB + "::what", []) if f.get("body")]
    c = [f for f in P.by_q.get(LIB + "::default_error", []) if f.get("body") and len(f["params"]) == 1 and not f.get("cp") and not f.get("mvc")]
    if not (rs and w and c):
        ctx.unk("message", "exception type", LIB, "no such type")
        return
    # what the constructor stores is what what() returns
    s = Session(P)
    s.begin(w[0]["_m"])
    msg = mk("message", sort="o")
    E = Entry(ctx, c[0], None, (), None) if False else None
    from ..interp import Dead
    try:
        t = TyRef(c[0]["_m"], c[0]["clst"])
        o = s.construct(c[0], [], t, {"l": 0, "f": 0}, [lst("str", ("sym", msg))])
        r = s.root("obj", o) if o.op == "rec" else o
        txt = s.invoke(w[0], [], r, None)
    except Dead:
        ctx.bad("message", "what() of the exception", LIB, "never returns")
        return
    same = contains(txt, lambda n: n is msg or (n.op == "list" and any(g[0] == "sym" and g[1] is msg for g in n.args[1:])))
    if not same and txt.op in ("ref", "cptr", "ptr"):
        v = s.val(txt) if hasattr(s, "val") else txt
        same = contains(v, lambda n: n is msg or (n.op == "list" and any(g[0] == "sym" and g[1] is msg for g in n.args[1:])))
    (ctx.expect(True, "message", "what() returns the text given to the exception", LIB, "") if same else
     (ctx.unk if txt.opq else ctx.bad)("message", "what() returns the text given to the exception", LIB, "returns " + brief(txt, 120)))


def mentions(x, v):
    """the text contains the given text on every path"""
    from .rec import Unreadable, fmt_tokens, literal
    if x is v or same_text(x, v):
        return True
    if x.op == "gite":
        return mentions(x.args[1], v) and mentions(x.args[2], v)
    if x.op == "list":
        return any(g[0] == "one" and mentions(g[1], v) or g[0] == "sym" and v.op == "list" and g in v.args[1:] for g in x.args[1:])
    if x.op == "fmt" and literal(x.args[0]) is not None:
        try:
            return any(t[0] == "arg" and (t[1] is v or same_text(t[1], v)) for t in fmt_tokens(x.args[0], x.args[1:], lambda z: None))
        except Unreadable:
            return False
    return False


def same_text(a, b):
    def core(x):
        return x.args[1][1] if x.op == "list" and len(x.args) == 2 and x.args[1][0] == "sym" else x
    return core(a) is core(b)


# ------------------------------------------------------------------------------------------------ X05
def parse_fields(t):
    """replacement fields of a format string: (argument id, spec, nested argument ids); ValueError if malformed"""
    out, i = [], 0
    while i < len(t):
        c = t[i]
        if c == "}":
            if t[i + 1:i + 2] != "}":
                raise ValueError("unmatched '}' in the format string")
            i += 2
        elif c == "{":
            if t[i + 1:i + 2] == "{":
                i += 2
                continue
            j, d = i + 1, 1
            while j < len(t) and d:
                d += {"{": 1, "}": -1}.get(t[j], 0)
                j += 1
            if d:
                raise ValueError("unterminated replacement field")
            body = t[i + 1:j - 1]
            a, _, spec = body.partition(":")
            if not re.match(r"^(\d+|[A-Za-z_]\w*)?$", a):
                raise ValueError("invalid argument name '%s'" % a)
            nested = re.findall(r"\{(\d+|[A-Za-z_]\w*)?\}", spec)
            out.append((a, spec, nested))
            i = j
        else:
            i += 1
    return out


SPEC = re.compile(r"^(?:(?:[^{}]?)([<>^]))?([ +-])?(#)?(0)?(\d+|\{\w*\})?(\.(?:\d+|\{\w*\}))?(L)?([a-zA-Z?])?$")


def category(m, i):
    """int | uint | bool | char | flt | str | ptr | custom of a formatted type"""
    t = m.types[i]
    s = t["s"]
    if t.get("b") == "bool":
        return "bool"
    if s in ("char",):
        return "char"
    if t.get("b") in ("int", "uint"):
        return "int"
    if t.get("b") == "flt":
        return "flt"
    if "arr" in t and m.types[t["arr"]]["s"] == "char" or re.match(r"std::(__cxx11::)?basic_string(_view)?<char|fmt::(v9::)?basic_string_view<char", s):
        return "str"
    if "p" in t:
        return "str" if m.types[t["p"]]["s"] == "char" else "ptr"
    if t.get("q", "").endswith("named_arg"):
        return category(m, t["ta"][1]["t"])
    if "streamed_view" in t.get("q", ""):
        return "str"
    return "custom"


TYPES_OK = {"int": "dbBoxXc", "char": "cdbBoxX", "bool": "sdbBoxX", "flt": "aAeEfFgG", "str": "sp"[:1], "ptr": "p"}


def bad_spec(spec, cat):
    if spec == "":
        return None
    if cat == "custom":
        return False
    m = SPEC.match(spec)
    if not m:
        return "specification ':%s' is malformed" % spec
    align, sign, alt, zero, width, prec, loc, ty = m.groups()
    if ty and ty not in TYPES_OK[cat]:
        return "presentation '%s' does not apply to this argument (%s)" % (ty, cat)
    if prec and (cat in ("int", "bool", "char", "ptr") and not (cat == "bool" and ty in (None, "s"))):
        return "a precision does not apply to this argument (%s)" % cat
    if (sign or alt or zero) and (cat in ("str", "ptr") and not (cat == "ptr" and False) or cat == "char" and ty in (None, "c") or cat == "bool" and ty in (None, "s")):
        return "sign, '#' and '0' need a numeric argument (%s)" % cat
    return None


def literals_of(P, f, e, depth=0):
    """possible values of a format string: list of literals, or ('param', index), or None"""
    e = strip(e)
    k = e["k"]
    if k == "str":
        return [e["v"]]
    if k == "ctor" or k == "ilist":
        xs = e["args"] if k == "ctor" else e["e"]
        if not xs:
            return [""]
        return literals_of(P, f, xs[0], depth)
    if k == "cond":
        a, b = literals_of(P, f, e["a"], depth), literals_of(P, f, e["b"], depth)
        return None if not isinstance(a, list) or not isinstance(b, list) else a + b
    if k == "call" and isinstance(e.get("fn"), dict):
        if e["fn"]["n"] in ("runtime", "string_view", "forward", "move") and e["args"]:
            return literals_of(P, f, e["args"][0], depth)
        if e["ck"] == "mem":
            return literals_of(P, f, e["obj"], depth) if e["fn"]["n"].startswith("operator ") else None
        return None
    if k == "ref" and depth < 4:
        if e.get("g"):
            g = next((g for g in P.globals.values() if g["q"] == e.get("q") or (g["n"] == e["n"] and g.get("infn") == f["q"])), None)
            return literals_of(P, g, g["init"], depth + 1) if g and g.get("init") and (g.get("const") or g.get("cx")) else None
        for i, p in enumerate(f.get("params", ())):
            if p["id"] == e["id"]:
                return ("param", i)
        for n in nodes(f):
            if n["k"] == "decl":
                for d in n["d"]:
                    if d["id"] == e["id"] and d.get("init") and f["_m"].types[d["t"]].get("c"):
                        return literals_of(P, f, d["init"], depth + 1)
    return None


FMT = re.compile(r"^fmt::(format|format_to|format_to_n|formatted_size|print|println|vformat|sprintf)$")


def x05(ctx):
    P = ctx.prog()
    fns = lib_fns(P)
    calls = {}
    for f in fns:
        for n, c in callees(f):
            calls.setdefault(c["u"], []).append((f, n, c))
    total = 0
    for f in fns:
        m = f["_m"]
        for n, c in callees(f):
            if not FMT.match(c["q"]):
                continue
            total += 1
            ctx.callsites += 1
            ctx.functions.add(f["q"])
            k = next((i for i, p in enumerate(c["ps"]) if "format_string" in (m.types[p].get("q") or "") or "format_string" in m.types[p]["s"]), None)
            if k is None or k >= len(n["args"]):
                ctx.unk("format", "%s in %s" % (c["q"], f["q"]), place(f, n), "call form is not modelled")
                continue
            ft = m.types[c["ps"][k]]
            tys = [a["t"] for a in ft.get("ta", [])[1:] if "t" in a]
            # the parameter pack may be exported flat or not at all
            given = n["args"][k + 1:]
            if len(tys) != len(given):
                ctx.unk("format", "%s in %s" % (c["q"], f["q"]), place(f, n), "argument types are not known")
                continue
            names = [arg_name(a) for a in given]
            lits = literals_of(P, f, n["args"][k])
            if isinstance(lits, tuple):
                i = lits[1]
                us = calls.get(f["u"], [])
                if not us:
                    ctx.unk("format", "%s in %s" % (c["q"], f["q"]), place(f, n), "the format string is a parameter of a function nothing calls")
                for g, site_, _ in us:
                    ctx.callsites += 1
                    a = site_["args"][i] if i < len(site_["args"]) else None
                    sub = literals_of(P, g, a) if a is not None else [""]
                    if not isinstance(sub, list):
                        ctx.unk("format", "message in %s" % g["q"], place(g, site_), "the format string is not a constant")
                        continue
                    for t in sub:
                        if t == "" and guarded_nonempty(f, n, i):
                            ctx.expect(True, "format", "message in %s" % g["q"], place(g, site_), "")
                            continue
                        one_format(ctx, m, t, tys, names, "message %r in %s" % (t[:60], g["q"]), place(g, site_))
                continue
            if lits is None:
                ctx.unk("format", "%s in %s" % (c["q"], f["q"]), place(f, n), "the format string is not a constant")
                continue
            for t in lits:
                one_format(ctx, m, t, tys, names, "%r in %s" % (t[:60], f["q"]), place(f, n))
    if not total:
        raise AnchorMissing("no formatting call found")


def guarded_nonempty(f, n, i):
    """the formatting call runs only when the format string is not empty"""
    par = parents(f)
    x = n
    pid = f["params"][i]["id"]
    while id(x) in par:
        p, key = par[id(x)]
        if p.get("k") == "if" and key == "a":
            c, sense = holds_when(p["c"])
            if not sense and c.get("k") == "call" and c["ck"] == "mem" and c["fn"]["n"] == "empty" and base(c["obj"])[0].get("id") == pid:
                return True
        x = p
    return False


def arg_name(a):
    a = strip(a)
    if a["k"] == "call" and isinstance(a.get("fn"), dict) and a["fn"]["q"] == "fmt::arg":
        s = strip(a["args"][0])
        for z in subnodes(s):
            if z["k"] == "str":
                return z["v"]
        return "?"
    return None


def one_format(ctx, m, t, tys, names, what, where):
    try:
        fs = parse_fields(t)
    except ValueError as x:
        ctx.bad("format", what, where, str(x))
        return
    used, nxt, manual = set(), 0, False
    for a, spec, nested in fs:
        order = [(a, False)] + [(b, True) for b in nested]
        for b, dyn in order:
            if b == "":
                i, nxt = nxt, nxt + 1
            elif b.isdigit():
                i, manual = int(b), True
            elif b in names:
                i = names.index(b)
            elif "?" in names:
                ctx.unk("format", what, where, "an argument's name is not a constant")
                return
            else:
                ctx.bad("format", what, where, "no argument is named '%s'" % b)
                return
            if i >= len(tys):
                ctx.bad("format", what, where, "placeholder %d has no argument (%d given)" % (i + 1, len(tys)))
                return
            used.add(i)
            cat = category(m, tys[i])
            if dyn:
                if cat not in ("int",):
                    ctx.bad("format", what, where, "the width or precision taken from an argument is not an integer (%s)" % cat)
                    return
                continue
            r = bad_spec(spec, cat)
            if r:
                ctx.bad("format", what, where, r)
                return
            if r is False and spec:
                el = None
                if "join_view" in m.types[tys[i]]["s"]:
                    ctx.unk("format", what, where, "specification of joined elements")
                else:
                    ctx.unk("format", what, where, "specification ':%s' of a user-defined type" % spec)
                return
    if manual and nxt:
        ctx.bad("format", what, where, "mixes automatic and manual argument numbering")
        return
    if len(used) != len(tys):
        ctx.bad("format", what, where, "argument %d is never printed" % (min(set(range(len(tys))) - used) + 1))
        return
    ctx.expect(True, "format", what, where, "")


RULES = {"T05": t05, "X01": x01, "X03": x03, "X05": x05, "X06": x06}
LEVELS = {"T05": "other", "X01": "other", "X03": "other", "X05": "other", "X06": "other"}
