"""Queries over the exported syntax trees: functions, nodes, call graph, write effects."""
import os, re
from . import program
from .values import TyRef

OWN = ("include", "source")


def own(f):
    """function, record or variable of the library itself (not of the witness)"""
    p = f["_m"].files[f["f"]] if isinstance(f.get("f"), int) else ""
    return any(p.startswith(os.path.join(program.REPO, d) + os.sep) for d in OWN)


def lib_fns(P):
    return sorted((f for f in P.funcs.values() if f.get("body") and own(f)), key=lambda f: (f["q"], f["u"]))


def place(f, n=None):
    n = n if n is not None and n.get("l") else f
    fi = n.get("f", f.get("f"))
    p = f["_m"].files[fi] if isinstance(fi, int) and fi < len(f["_m"].files) else ""
    return "%s:%s" % (os.path.relpath(p, program.REPO) if p else "?", n.get("l", "?"))


def subnodes(x, lambdas=True):
    """every node below x, in no particular order"""
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            if "k" in y:
                yield y
            for k, v in y.items():
                if isinstance(v, (dict, list)) and k not in ("fn", "ta", "ps"):
                    todo.append(v)
        elif isinstance(y, list):
            todo += y


def nodes(f):
    """nodes of the body and the member initialisers of a function (bodies of lambdas are functions of their own)"""
    yield from subnodes([f.get("inits") or [], f.get("body")])


def callees(f):
    """(node, callee record) of every call and construction in a function"""
    for n in nodes(f):
        if n["k"] in ("call", "ctor", "ictor") and isinstance(n.get("fn"), dict):
            yield n, n["fn"]


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "dinit"):
        e = e["e"]
    return e


def lambdas_of(P, f):
    """operator() functions of the lambdas a function creates"""
    out = []
    for n in nodes(f):
        if n["k"] == "lambda":
            for g in P.funcs.values():
                if g["u"] == n["op"] or g.get("lamop") == n["op"]:
                    out.append(g)
    return out


def overriders(P):
    o = {}
    for f in P.funcs.values():
        for b in f.get("ov", ()):
            o.setdefault(b, []).append(f)
    return o


class CallGraph:
    """library functions a library function may run: direct calls, virtual calls to every overrider, destructors of locals, lambdas it creates"""
    def __init__(self, P):
        self.P = P
        self.over = overriders(P)
        self.dtors = {}
        for f in P.funcs.values():
            if f.get("kind") == "dtor" and f.get("clst") is not None:
                r = f["_m"].types[f["clst"]].get("rec")
                self.dtors[r] = f
        self.edges = {}
        for f in lib_fns(P):
            out = []
            m = f["_m"]
            for n, c in callees(f):
                for g in self.targets(c):
                    out.append((g, n))
            for n in nodes(f):
                if n["k"] == "decl":
                    for d in n["d"]:
                        if d.get("t", -1) >= 0 and not d.get("static"):
                            r = m.types[d["t"]]
                            if r.get("rec") in self.dtors and not r.get("r"):
                                out.append((self.dtors[r["rec"]], n))
                if n["k"] == "lambda":
                    for g in P.funcs.values():
                        if g["u"] == n["op"] or g.get("lamop") == n["op"]:
                            out.append((g, n))
                if n["k"] == "ref" and n.get("dk") == "fn" and isinstance(n.get("fn"), dict):
                    for g in self.targets(n["fn"]):
                        out.append((g, n))
            self.edges[f["u"]] = [(g, n) for g, n in out if g.get("body") and own(g)]

    def targets(self, c):
        out = []
        g = self.P.funcs.get(c["u"])
        if g is not None:
            out.append(g)
        if c.get("virt"):
            todo = [c["u"]]
            while todo:
                for g in self.over.get(todo.pop(), ()):
                    out.append(g)
                    todo.append(g["u"])
        return out

    def reach(self, f):
        """u -> (caller u, node) of everything reachable from f"""
        seen, todo = {f["u"]: None}, [f]
        while todo:
            x = todo.pop()
            for g, n in self.edges.get(x["u"], ()):
                if g["u"] not in seen:
                    seen[g["u"]] = (x["u"], n)
                    todo.append(g)
        return seen

    def path(self, seen, u):
        out = []
        while u is not None:
            out.append(self.P.funcs[u]["q"])
            u = seen[u][0] if seen.get(u) else None
        return " <- ".join(out)

    def cycles(self):
        """strongly connected components with more than one function, or calling themselves"""
        idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
        import sys
        sys.setrecursionlimit(max(10000, sys.getrecursionlimit()))

        def go(u):
            idx[u] = low[u] = n[0]
            n[0] += 1
            st.append(u)
            on.add(u)
            for g, _ in self.edges.get(u, ()):
                v = g["u"]
                if v not in idx:
                    go(v)
                    low[u] = min(low[u], low[v])
                elif v in on:
                    low[u] = min(low[u], idx[v])
            if low[u] == idx[u]:
                c = []
                while True:
                    v = st.pop()
                    on.discard(v)
                    c.append(v)
                    if v == u:
                        break
                if len(c) > 1 or any(g["u"] == u for g, _ in self.edges.get(u, ())):
                    out.append(c)
        for u in list(self.edges):
            if u not in idx:
                go(u)
        return out


# ------------------------------------------------------------------------------------------------ writes
VIEWS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "operator[]", "operator()", "operator*", "operator->", "at", "front", "back", "data", "get", "value",
         "segment", "head", "tail", "block", "row", "col", "rows", "cols", "topRows", "bottomRows", "middleRows", "leftCols", "rightCols", "middleCols", "topLeftCorner",
         "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "diagonal", "array", "matrix", "noalias", "transpose", "adjoint", "triangularView", "selfadjointView",
         "derived", "const_cast_derived", "coeffRef", "coeff", "x", "y", "z", "w", "what", "c_str", "reshaped", "nestedExpression", "find", "lower_bound", "upper_bound",
         "max_size", "count", "get_ptr", "items", "data_", "view", "str", "find_if", "real", "asDiagonal", "replicate", "eval", "unaryExpr", "binaryExpr", "cwiseAbs",
         "colwise", "rowwise", "innerVector", "derived_", "forward", "move", "as_const", "addressof", "ref", "cref", "make_pair", "tie", "get_if", "visit"}
MUTATORS = {"push_back", "emplace_back", "push_front", "emplace_front", "pop_back", "pop_front", "insert", "erase", "emplace", "clear", "resize", "reserve", "shrink_to_fit",
            "swap", "assign", "fill", "reset", "release", "setZero", "setOnes", "setConstant", "setIdentity", "setRandom", "setLinSpaced", "conservativeResize", "compute",
            "solveInPlace", "triangularSolveInPlace", "normalize", "append", "replace", "operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator<<",
            "operator%=", "operator|=", "operator&=", "operator^=", "operator++", "operator--", "transposeInPlace", "store", "exchange", "lock", "unlock", "rankUpdate",
            "swap_ranges", "merge", "extract", "push", "pop", "update", "patch"}


def writes(f, x=None):
    """(target expression, node, how) for everything a function (or expression) may modify; how: 'write', 'maybe' or ('call', parameter index or 'this')"""
    m = f["_m"]
    for n in (nodes(f) if x is None else subnodes(x)):
        k = n["k"]
        if k == "asg":
            yield n["a"], n, "write"
        elif k == "un" and n["op"] in ("++", "--"):
            yield n["e"], n, "write"
        elif k in ("new", "delete"):
            yield n, n, "maybe"
        elif k == "call":
            fn = n.get("fn")
            if not isinstance(fn, dict):
                yield (n.get("fe") or n), n, "maybe"
                continue
            args = list(n["args"])
            ps = list(fn.get("ps", ()))
            if fn.get("cls") and not fn.get("st"):
                if n["ck"] == "mem":
                    obj = n["obj"]
                elif n["ck"] == "op" and args:
                    obj, args = args[0], args[1:]
                else:
                    obj = None
                if obj is not None and not fn.get("cm") and not fn.get("lam"):
                    ptr = bool(n.get("ar"))
                    tgt = {"k": "un", "op": "*", "e": obj, "l": n.get("l"), "f": n.get("f")} if ptr else obj
                    if fn["n"] in MUTATORS:
                        yield tgt, n, "write"
                    elif fn["n"] in VIEWS:
                        pass
                    else:
                        yield tgt, n, ("call", "this")
            elif n["ck"] == "op" and fn["n"] in MUTATORS and args and fn["n"] != "operator<<":
                yield args[0], n, "write"
                continue
            for i, (a, p) in enumerate(zip(args, ps)):
                t = m.types[p] if p >= 0 else {}
                if t.get("r") == "&" and not t.get("c"):
                    if fn["n"] in VIEWS or (fn.get("q") or "").startswith("fmt::"):
                        continue
                    yield a, n, ("call", i)
                elif "p" in t and not m.types[t["p"]].get("c") and m.types[t["p"]].get("b") != "void":
                    y = strip(a)
                    if y["k"] not in ("str", "null"):
                        yield {"k": "un", "op": "*", "e": a, "l": n.get("l"), "f": n.get("f")}, n, ("call", i)


def base(e):
    """(root node, steps) of an lvalue: steps in order from the root: ('.', name) | ('->', name) | '*' | ('()', method)"""
    steps = []
    while True:
        e = strip(e)
        k = e["k"]
        if k == "mem":
            steps.append(("->" if e.get("ar") else ".", e["n"]))
            e = e["b"]
        elif k == "un" and e["op"] == "*":
            steps.append("*")
            e = e["e"]
        elif k == "un" and e["op"] == "&":
            steps.append("&")
            e = e["e"]
        elif k == "un" and e["op"] in ("++", "--"):
            e = e["e"]
        elif k == "idx":
            steps.append("[]")
            e = e["a"]
        elif k == "asg":
            e = e["a"]
        elif k == "call" and isinstance(e.get("fn"), dict) and e["ck"] == "mem":
            steps.append(("()", e["fn"]["n"], e))
            e = e["obj"]
        elif k == "call" and isinstance(e.get("fn"), dict) and e["ck"] == "op" and e["args"]:
            steps.append(("()", e["fn"]["n"], e))
            e = e["args"][0]
        elif k == "call" and isinstance(e.get("fn"), dict) and e["fn"]["n"] in VIEWS and e["args"]:
            steps.append(("()", e["fn"]["n"], e))
            e = e["args"][0]
        elif k == "ctor" and (e.get("cp") or e.get("mv")) and e["args"]:
            e = e["args"][0]
        else:
            out = []
            for z in steps[::-1]:
                if z == "*" and out and out[-1] == "&":
                    out.pop()
                else:
                    out.append(z)
            return e, out


def ref_vars(f):
    """local references, pointers and views of containers: id -> initialiser"""
    out = {}
    for n in nodes(f):
        if n["k"] == "decl":
            for d in n["d"]:
                if d.get("t", -1) >= 0 and d.get("init"):
                    t = f["_m"].types[d["t"]]
                    if t.get("r") or "p" in t:
                        out[d["id"]] = d["init"]
        elif n["k"] == "rfor":
            d = n["v"]
            if d.get("t", -1) >= 0 and f["_m"].types[d["t"]].get("r"):
                out[d["id"]] = n["r"]
    return out


def root_of(e, refs):
    """(root node, steps, expressions on the way) of an lvalue, through local references"""
    root, steps = base(e)
    exprs, n = [e], 0
    while root["k"] == "ref" and root.get("id") in refs and n < 8:
        nxt = refs[root["id"]]
        exprs.append(nxt)
        root, s2 = base(nxt)
        steps = s2 + steps
        n += 1
    return root, steps, exprs


class Effects:
    """what library functions modify of their parameters and objects: usr -> {index or 'this': 'write' | 'maybe'}"""
    def __init__(self, P):
        self.P = P
        self.cg = CallGraph(P)
        self.sum = {f["u"]: {} for f in lib_fns(P)}
        fns = lib_fns(P)
        info = []
        for f in fns:
            refs = ref_vars(f)
            ids = {p["id"]: i for i, p in enumerate(f["params"])}
            ws = []
            for e, n, how in writes(f):
                root, steps, _ = root_of(e, refs)
                if root["k"] == "this":
                    who = "this"
                elif root["k"] == "ref" and root.get("id") in ids:
                    i = ids[root["id"]]
                    t = f["_m"].types[f["params"][i]["t"]]
                    if not (t.get("r") or "p" in t or steps_deref(steps)):
                        continue       # a copy
                    if "p" in t and not steps_deref(steps):
                        continue       # the pointer variable itself
                    who = i
                else:
                    continue
                ws.append((who, n, how))
            info.append((f, ws))
        change = True
        while change:
            change = False
            for f, ws in info:
                s = self.sum[f["u"]]
                for who, n, how in ws:
                    r = self.resolve(n, how)
                    if r and s.get(who) != "write" and s.get(who) != r:
                        s[who] = r
                        change = True

    def resolve(self, n, how):
        """'write' | 'maybe' | None for an effect reported by writes()"""
        if not isinstance(how, tuple):
            return how
        c = n["fn"]
        ts = [g for g in self.cg.targets(c) if g.get("body") and own(g)]
        if not ts:
            return "maybe"
        rs = [self.sum[g["u"]].get(how[1]) for g in ts]
        return "write" if "write" in rs else "maybe" if "maybe" in rs else None


def steps_deref(steps):
    return any(s == "*" or s == "[]" or (isinstance(s, tuple) and (s[0] == "->" or (s[0] == "()" and s[1] in ("operator*", "operator->", "operator[]")))) for s in steps)
