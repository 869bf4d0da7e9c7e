"""X02: every loop has a measure that is fixed or moves towards its limit, and no library function recurses."""
import itertools
from ..rulekit import *
from .. import query as Q
from .res import known, holds, relevant, instances, quantified, atoms_set, at_terms, match
from ..lib_std import leaves
from ..terms import _replace_bv, bv, terms
from ..query import lib_fns, place, subnodes, nodes, callees, strip, base, ref_vars, writes, own

GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "append", "push"}
SHRINK = {"pop_back", "pop_front", "erase", "pop"}
RESIZE = {"clear", "resize", "assign", "swap", "conservativeResize", "reset", "shrink", "operator=", "operator+=", "setZero", "setOnes", "setConstant", "setIdentity", "setRandom",
          "setLinSpaced", "compute", "extract", "merge", "replace"}
SIZES = {"size", "rows", "cols", "length", "rowCount", "innerSize", "outerSize"}
PURE_FN = {"min", "max", "abs", "static_cast", "ssize", "size", "distance", "as_const", "move", "forward", "end", "cend", "begin", "cbegin"}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "==", "==": "!="}


def names(steps):
    """field names of an access path"""
    return tuple(s[1] for s in steps if isinstance(s, tuple) and s[0] in (".", "->"))


def inside(steps):
    """an access path that ends below a container element or a view"""
    return any(s == "[]" or (isinstance(s, tuple) and s[0] == "()" and s[1] not in ("operator->", "operator*", "get", "value", "derived", "noalias", "const_cast_derived")) for s in steps)


def root_of(e, refs):
    """(root node, steps) of an lvalue, through local references that name a whole object"""
    root, steps = base(e)
    k = 0
    while root["k"] == "ref" and root.get("id") in refs and k < 8:
        nxt, s2 = base(refs[root["id"]])
        if inside(s2) or nxt["k"] not in ("ref", "this"):
            break
        root, steps = nxt, s2 + steps
        k += 1
    return root, steps, None


def who(root):
    if root["k"] == "this":
        return "this"
    if root["k"] == "ref" and root.get("id") is not None:
        return root["id"]
    if root["k"] == "ref" and root.get("g"):
        return ("g", root.get("q") or root.get("n"))
    return None


class Mods:
    """fields a library function may modify through its object and parameters: usr -> {(who, fields, kind)}; kind: 'elem' | 'grow' | 'shrink' | 'size' | 'any'"""
    def __init__(self, P):
        self.P = P
        self.cg = Q.CallGraph(P)
        self.sum = {f["u"]: set() for f in lib_fns(P)}
        self.refs = {f["u"]: ref_vars(f) for f in lib_fns(P)}
        fns = lib_fns(P)
        for _ in range(12):
            change = False
            for f in fns:
                ids = {p["id"]: i for i, p in enumerate(f["params"])}
                new = set()
                for w, flds, kind, n in self.effects(f):
                    if w == "this":
                        new.add(("this", flds[:3], kind))
                    elif w in ids and (f["_m"].types[f["params"][ids[w]]["t"]].get("r") or "p" in f["_m"].types[f["params"][ids[w]]["t"]]):
                        new.add((ids[w], flds[:3], kind))
                if not new <= self.sum[f["u"]]:
                    self.sum[f["u"]] |= new
                    change = True
            if not change:
                break

    def effects(self, f, x=None):
        """(root, field names, kind, node) of everything a function or a part of it may modify"""
        refs = self.refs.get(f["u"]) if f["u"] in self.refs else ref_vars(f)
        for e, n, how in writes(f, x):
            root, steps, _ = root_of(e, refs)
            w = who(root)
            if w is None:
                continue
            flds = names(steps)
            if not isinstance(how, tuple):
                kind = "any"
                fn = n.get("fn", {}).get("n") if n["k"] == "call" and isinstance(n.get("fn"), dict) else None
                if inside(steps):
                    kind = "elem"
                elif fn in GROW:
                    kind = "grow"
                elif fn in SHRINK:
                    kind = "shrink"
                elif fn is not None and fn not in RESIZE and how == "write":
                    kind = "elem"
                yield w, flds, kind, n
                continue
            ts = [g for g in self.cg.targets(n["fn"]) if g.get("body") and own(g)]
            if not ts:
                yield w, flds, "elem" if inside(steps) else "any", n
                continue
            for g in ts:
                for w2, f2, k2 in self.sum.get(g["u"], ()):
                    if w2 == how[1]:
                        yield w, flds + f2, ("elem" if inside(steps) else k2), n


class Path:
    """an lvalue read in a condition"""
    def __init__(self, w, flds, size, node):
        self.w, self.flds, self.size, self.node = w, flds, size, node


class Loop:
    def __init__(self, f, n, M):
        self.f, self.n, self.M = f, n, M
        self.m = f["_m"]
        self.refs = M.refs.get(f["u"]) or ref_vars(f)
        self.where = place(f, n)
        parts = [n.get("c"), n.get("s"), n.get("n")]
        lam = {}
        for z in nodes(f):
            if z["k"] == "lambda" and z.get("op") in M.P.funcs:
                lam[z.get("op")] = M.P.funcs[z["op"]]
        self.effects = list(M.effects(f, parts))
        for z in subnodes(parts):        # closures called in the loop act on what they captured
            if z["k"] == "call" and isinstance(z.get("fn"), dict) and z["fn"]["u"] in lam:
                self.effects += list(M.effects(lam[z["fn"]["u"]]))
        self.why = []
        self.cg_fns = None

    # -------------------------------------------------------------------------------- types
    def ty(self, e):
        t = e.get("t", -1)
        return self.m.types[t] if isinstance(t, int) and t >= 0 else {}

    def kind(self, e):
        t = self.ty(strip(e))
        if t.get("b") in ("int", "uint"):
            return "int"
        if t.get("b") == "bool":
            return "bool"
        if t.get("b") == "flt":
            return "flt"
        if "p" in t or "iterator" in t.get("s", "") or "Iterator" in t.get("s", ""):
            return "it"
        return "other"

    # -------------------------------------------------------------------------------- how a value moves
    def moves(self, w, flds, size):
        """effects on a path, as (direction, node): 'inc' | 'dec' | 'any' by an integral step"""
        out = []
        for w2, f2, kind, n in self.effects:
            if w2 != w:
                continue
            short = min(len(flds), len(f2))
            if flds[:short] != f2[:short]:
                continue
            if len(f2) > len(flds) and not size and flds == f2[:len(flds)]:
                out.append(("any", n))
                continue
            if len(f2) > len(flds):
                continue          # a part of the container's elements
            if kind == "elem":
                if not size:
                    out.append(("any", n))
                continue
            if size and len(f2) == len(flds):
                out.append(({"grow": "inc", "shrink": "dec"}.get(kind, "any"), n))
                continue
            out.append((self.step(n, len(f2) == len(flds)), n))
        return out

    def step(self, n, whole):
        if not whole:
            return "any"
        if n["k"] == "un" and n["op"] in ("++", "--"):
            return "inc" if n["op"] == "++" else "dec"
        if n["k"] == "call" and isinstance(n.get("fn"), dict) and n["fn"]["n"] in ("operator++", "operator--"):
            return "inc" if n["fn"]["n"] == "operator++" else "dec"
        if n["k"] == "asg":
            v = self.const(n["b"])
            op = n.get("op", "=")
            if op in ("+=", "-=") and v is not None:
                return "none" if v == 0 else "inc" if (v > 0) == (op == "+=") else "dec"
            if op == "=":
                b = strip(n["b"])
                if b["k"] == "bin" and b["op"] in ("+", "-"):
                    x, y = strip(b["a"]), strip(b["b"])
                    k = self.const(y)
                    if k is not None and self.same(x, n["a"]):
                        return "none" if k == 0 else "inc" if (k > 0) == (b["op"] == "+") else "dec"
                    k = self.const(x)
                    if k is not None and b["op"] == "+" and self.same(y, n["a"]):
                        return "none" if k == 0 else "inc" if k > 0 else "dec"
                if self.const(b) is not None:
                    return "reset"
        return "any"

    def const(self, e):
        e0 = e
        while isinstance(e, dict) and e.get("k") in ("cast", "dinit"):
            if e.get("cv") is not None:
                return int(e["cv"])
            e = e["e"]
        if e["k"] == "int":
            return int(e["v"])
        if e["k"] == "un" and e["op"] == "-":
            v = self.const(e["e"])
            return None if v is None else -v
        if e["k"] == "ref" and e.get("cv") is not None:
            try:
                return int(e["cv"])
            except (TypeError, ValueError):
                return None
        return None

    def same(self, a, b):
        ra, sa, _ = root_of(a, self.refs)
        rb, sb, _ = root_of(b, self.refs)
        return who(ra) is not None and who(ra) == who(rb) and names(sa) == names(sb) and len(sa) == len(sb)

    def direction(self, e):
        """how an expression changes from one iteration to the next: ('const'|'inc'|'dec'|'mixed'|'any', [moves])"""
        e = strip(e)
        k = e["k"]
        if self.const(e) is not None or k in ("flt", "bool", "null", "enum", "str", "int"):
            return "const", []
        if k in ("ref", "mem", "this"):
            root, steps, _ = root_of(e, self.refs)
            w = who(root)
            if w is None or inside(steps):
                return self.elem(e)
            return self.summarise(self.moves(w, names(steps), False), e)
        if k == "un" and e["op"] == "*":
            return self.elem(e)
        if k == "un" and e["op"] in ("++", "--"):       # counts while it is tested
            return self.direction(e["e"])
        if k == "un" and e["op"] == "-":
            d, mv = self.direction(e["e"])
            return {"inc": "dec", "dec": "inc"}.get(d, d), mv
        if k == "bin" and e["op"] in ("+", "-"):
            (a, ma), (b, mb) = self.direction(e["a"]), self.direction(e["b"])
            if e["op"] == "-":
                b = {"inc": "dec", "dec": "inc"}.get(b, b)
            if a == "const":
                return b, mb
            if b == "const" or a == b:
                return a, ma + mb
            return "any", ma + mb
        if k == "bin":
            (a, ma), (b, mb) = self.direction(e["a"]), self.direction(e["b"])
            if e["op"] in ("*", "/") and b == "const" and a in ("inc", "dec") and (self.const(e["b"]) or 0) > 0 and (e["op"] == "*"):
                return a, ma
            return ("const" if a == b == "const" else "any"), ma + mb
        if k == "cond":
            ds = [self.direction(e[z]) for z in "cab"]
            return ("const" if all(d[0] == "const" for d in ds) else "any"), sum((d[1] for d in ds), [])
        if k == "call" and isinstance(e.get("fn"), dict):
            fn = e["fn"]
            if e["ck"] == "mem" and fn["n"] in SIZES | {"end", "cend", "begin", "cbegin", "empty", "has_value"}:
                root, steps, _ = root_of(e["obj"], self.refs)
                w = who(root)
                if w is not None and not inside(steps):
                    return self.summarise(self.moves(w, names(steps), True), e)
                return self.elem(e)
            args = list(e["args"]) + ([e["obj"]] if e["ck"] == "mem" else [])
            ds = [self.direction(a) for a in args]
            if all(d[0] == "const" for d in ds) and (fn["n"] in PURE_FN or fn.get("cm") or e["ck"] in ("op", "fn")):
                return "const", []
            if fn["n"] in PURE_FN and len(ds) == 1:
                return ds[0]
            return "any", sum((d[1] for d in ds), [])
        if k == "ctor" and len(e.get("args", ())) == 1:
            return self.direction(e["args"][0])
        return "any", []

    def elem(self, e):
        """an element or view: constant while its container is not touched"""
        roots = [z for z in subnodes(e) if z["k"] in ("ref", "this")]
        for z in roots:
            root, steps, _ = root_of(z, self.refs)
            w = who(root)
            if w is not None and any(w2 == w for w2, _, _, _ in self.effects):
                return "any", []
        return "const", []

    def summarise(self, mv, e):
        mv = [x for x in mv if x[0] != "none"]
        ds = {d for d, _ in mv}
        if not ds:
            return "const", []
        if ds == {"inc"}:
            return "inc", mv
        if ds == {"dec"}:
            return "dec", mv
        if "any" in ds:
            return "any", mv
        return "mixed", mv

    # -------------------------------------------------------------------------------- exits
    def stay(self):
        """conditions that must all hold for another iteration"""
        out = []
        if self.n["k"] == "rfor":
            return out
        c = self.n.get("c")
        if c is not None:
            self.split(c, True, out)
        s = strip(self.n["s"]) if self.n.get("s") else None
        if s is not None:
            for z in (s["s"] if s["k"] == "blk" else [s]):
                if z["k"] == "if":
                    if self.leaves(z.get("a")) and not self.leaves(z.get("b")):
                        self.split(z["c"], False, out)
                    elif self.leaves(z.get("b")) and not self.leaves(z.get("a")):
                        self.split(z["c"], True, out)
                if any(y["k"] == "continue" for y in subnodes(z)):
                    break
        return out

    def leaves(self, s):
        """the statement always ends the loop"""
        if s is None:
            return False
        s = strip(s)
        if s["k"] == "blk":
            return any(self.leaves(z) for z in s["s"]) and not any(y["k"] == "continue" for y in subnodes(s))
        return s["k"] in ("break", "ret", "throw")

    def split(self, c, truth, out):
        c = strip(c)
        if c["k"] == "un" and c["op"] == "!":
            return self.split(c["e"], not truth, out)
        if c["k"] == "bin" and c["op"] == ("&&" if truth else "||"):
            self.split(c["a"], truth, out)
            self.split(c["b"], truth, out)
            return
        if c["k"] == "bool" and c["v"] == truth:
            return
        out.append((c, truth))

    def atom(self, c, truth):
        """(left, operator, right) of a stay condition"""
        if c["k"] == "bin" and c["op"] in FLIP:
            return c["a"], c["op"] if truth else NEG[c["op"]], c["b"]
        if c["k"] == "call" and c["ck"] == "op" and isinstance(c.get("fn"), dict) and len(c["args"]) == 2:
            op = c["fn"]["n"].replace("operator", "")
            if op in FLIP:
                return c["args"][0], op if truth else NEG[op], c["args"][1]
        return None

    def advances(self, mv):
        """every way through the body to the next iteration contains one of the given steps"""
        ids = {id(n) for _, n in mv}

        def has(e):
            """a step that is taken whenever the expression is evaluated"""
            if e is None:
                return False
            if isinstance(e, list):
                return any(has(z) for z in e)
            if not isinstance(e, dict):
                return False
            if id(e) in ids:
                return True
            k = e.get("k")
            if k == "bin" and e["op"] in ("&&", "||"):
                return has(e["a"])
            if k == "cond":
                return has(e["c"]) or (has(e["a"]) and has(e["b"]))
            if k == "lambda":
                return False
            return any(has(v) for kk, v in e.items() if isinstance(v, (dict, list)) and kk not in ("fn", "ta", "ps"))

        def run(s, adv):
            """outcomes of a statement: {'next'|'cont'|'break': advanced on all such ways}"""
            if s is None:
                return {"next": adv}
            k = s["k"]
            if k == "blk":
                outs, cur = {}, adv
                for z in s["s"]:
                    if cur is None:
                        break
                    r = run(z, cur)
                    cur = r.pop("next", None)
                    for o, v in r.items():
                        outs[o] = outs.get(o, True) and v
                if cur is not None:
                    outs["next"] = cur
                return outs
            if k == "if":
                a0 = adv or has(s.get("i")) or has(s.get("v")) or has(s["c"])
                ra, rb = run(s.get("a"), a0), run(s.get("b"), a0)
                return {o: ra.get(o, True) and rb.get(o, True) for o in set(ra) | set(rb)}
            if k in ("ret", "throw"):
                return {}
            if k == "break":
                return {"break": adv}
            if k == "continue":
                return {"cont": adv}
            if k in ("for", "while", "rfor"):
                a0 = adv or has(s.get("i")) or has(s.get("r")) or has(s.get("c"))
                if s.get("c") is not None and strip(s["c"]).get("k") == "bool" and strip(s["c"])["v"]:
                    r = run(s.get("s"), a0)
                    return {"next": r["break"]} if "break" in r else {}
                return {"next": a0}
            if k == "do":
                r = run(s.get("s"), adv)
                v = [r[o] for o in ("next", "cont", "break") if o in r]
                return {"next": all(v)} if v else {}
            if k == "switch":
                a0 = adv or has(s.get("c"))
                body = run(s.get("s"), a0)
                nx = [v for o, v in body.items() if o in ("next", "break")] + [a0]
                out = {"next": all(nx)}
                if "cont" in body:
                    out["cont"] = body["cont"]
                return out
            if k in ("case", "default"):
                return run(s.get("s"), adv)
            if k == "try":
                r = run(s.get("s"), adv)
                for h in s.get("h", ()):
                    rh = run(h.get("s") if isinstance(h, dict) else h, adv)
                    for o, v in rh.items():
                        r[o] = r.get(o, True) and v
                return r
            return {"next": adv or has(s)}
        if self.n["k"] == "for" and has(self.n.get("n")):
            return True
        if self.n.get("c") is not None and self.n["k"] != "do" and has(self.n["c"]):
            return True
        r = run(self.n.get("s"), False)
        v = [r[o] for o in ("next", "cont") if o in r]
        if v and not all(v) and self.n.get("c") is not None and has(self.n["c"]):
            return True
        return all(v)

    def rank(self):
        """(True | False | None, explanation)"""
        n = self.n
        if n["k"] == "rfor":
            root, steps, _ = root_of(n["r"], self.refs)
            w = who(root)
            if w is None or inside(steps):
                return True, "runs once per element of a temporary"
            for d, x in self.moves(w, names(steps), True):
                if d in ("inc", "dec"):
                    return False, "the container is %s at line %s while it is iterated over" % ("extended" if d == "inc" else "shortened", x.get("l"))
                return None, "the container may be modified at line %s while it is iterated over" % x.get("l")
            return True, "runs once per element"
        if n["k"] == "do" and strip(n["c"]).get("k") == "bool" and not strip(n["c"])["v"]:
            return True, "runs once"
        atoms = self.stay()
        bad, unk = [], []
        for c, truth in atoms:
            r = self.measure(c, truth)
            if r[0] is True:
                return r
            (bad.append((r[1], len(r) > 2)) if r[0] is False else unk.append(r[1]))
        if unk:
            return None, unk[0]
        exits = self.exit_conditions()
        if not atoms and not exits:
            if any(z["k"] in ("break", "ret", "throw") for z in subnodes(n.get("s"))):
                return None, "leaves the loop in a way that is not understood"
            return False, "nothing ends the loop"
        strong = [b for b in bad if b[1]]
        if strong:
            return False, strong[0][0]
        more = self.hidden_measure(exits)
        if more:
            return None, more
        if bad:
            return False, bad[0][0]
        return False, "no counter or size limits the iterations"

    def measure(self, c, truth):
        """does the condition bound the iterations: True, False (it cannot), None"""
        a = self.atom(c, truth)
        t = self.f_text(c)
        if a is None:
            if c["k"] == "call" and isinstance(c.get("fn"), dict) and c["fn"]["n"] == "empty" and c["ck"] == "mem" and not truth:
                d, mv = self.direction(c)
                if d == "dec":
                    return (True, "the container shrinks") if self.advances(mv) else (False, "an iteration need not remove an element", 1)
                return (False, "the container does not shrink") if d in ("inc", "const") else (None, "container size not understood")
            if c["k"] in ("ref", "mem") and self.kind(c) in ("int",) and truth:      # while (n) / while (n--)
                return self.pair(c, "!=", None, t)
            if c["k"] == "un" and c["op"] in ("--", "++") and truth:
                return self.pair(c, "!=", None, t)
            return False, "the loop goes on while '%s' is %s" % (t, "true" if truth else "false")
        l, op, r = a
        for x, o, y in ((l, op, r), (r, FLIP[op], l)):
            if o == ">=" and self.ty(strip(x)).get("b") == "uint" and self.const(y) == 0:
                return False, "'%s' always holds: the counter is unsigned" % t, 1
        res = self.pair(l, op, r, t)
        if res[0] is True:
            return res
        other = self.pair(r, FLIP[op], l, t)
        if other[0] is True:
            return other
        return res if res[0] is False or other[0] is not False else other

    def pair(self, l, op, r, t):
        """l op r must hold to go on; does l approach r"""
        kind = self.kind(l)
        dl, ml = self.direction(l)
        dr, mr = self.direction(r) if r is not None else ("const", [])
        if kind not in ("int", "it"):
            if kind == "flt" and dl != "const" and self.shrinks(l):
                return None, "'%s' contracts a number" % t
            return False, "the loop goes on while '%s'" % t
        if op == "==":
            return False, "the loop goes on while '%s'" % t
        toward = {"<": "inc", "<=": "inc", ">": "dec", ">=": "dec", "!=": None}[op]
        if dl == "const" and dr == "const":
            return False, "nothing in '%s' changes" % t
        if dl == "const":
            # the limit has to come closer
            want = {"inc": "dec", "dec": "inc", None: None}[toward]
            if dr == want or (toward is None and dr in ("inc", "dec")):
                return (True, "the limit approaches") if self.advances(mr) else (False, "an iteration need not advance '%s'" % t, 1)
            return (False, "'%s' moves away from its limit" % t, 1) if dr in ("inc", "dec") else (False, "'%s' moves both ways" % t, 1) if dr == "mixed" else (None, "'%s' is not understood" % t)
        if dl == "any" or dr == "any":
            return None, "'%s' is not understood" % t
        if dl == "mixed":
            back = next((x for d, x in ml if d != (toward or "inc")), None)
            return False, "the counter of '%s' is moved back at line %s" % (t, back.get("l") if back else "?"), 1
        if dr == "mixed" or dr == dl:
            return False, "the limit of '%s' moves along with the counter (line %s)" % (t, mr[0][1].get("l") if mr else "?"), 1
        if toward is not None and dl != toward:
            return False, "'%s' moves away from its limit" % t, 1
        if op == "!=" and any(not self.unit(x) for _, x in ml):
            return None, "'%s' may be stepped over" % t
        if not self.advances(ml):
            return False, "an iteration need not advance the counter of '%s'" % t, 1
        return True, "'%s' approaches its limit" % t

    def unit(self, n):
        if n["k"] == "un" or (n["k"] == "call"):
            return True
        return n["k"] == "asg" and n.get("op") in ("+=", "-=") and abs(self.const(n["b"]) or 0) == 1

    def shrinks(self, e):
        """every assignment multiplies by a constant factor below one"""
        def val(x):
            x = strip(x)
            return float(x["v"]) if x["k"] in ("flt", "int") else None
        for d, n in self.direction(e)[1]:
            if n["k"] != "asg":
                return False
            op, b = n.get("op", "="), n["b"]
            if op == "=":
                y = strip(b)
                if y["k"] != "bin" or y["op"] not in "*/":
                    return False
                if self.same(strip(y["a"]), n["a"]):
                    op, b = y["op"] + "=", y["b"]
                elif y["op"] == "*" and self.same(strip(y["b"]), n["a"]):
                    op, b = "*=", y["a"]
                else:
                    return False
            v = val(b)
            if v is None or not (op == "*=" and 0 <= v < 1 or op == "/=" and v > 1):
                return False
        return True

    def exit_conditions(self):
        """conditions that guard any way out of the loop"""
        out = [c for c in [self.n.get("c")] if c is not None and strip(c)["k"] != "bool"]

        def walk(s, conds, inner):
            if isinstance(s, list):
                for z in s:
                    walk(z, conds, inner)
                return
            if not isinstance(s, dict) or "k" not in s:
                return
            k = s["k"]
            if k in ("ret", "throw") or (k == "break" and not inner):
                out.extend(conds)
                return
            if k == "if":
                walk(s.get("a"), conds + [s["c"]], inner)
                walk(s.get("b"), conds + [s["c"]], inner)
                return
            if k == "switch":
                walk(s.get("s"), conds + [s["c"]], True)
                return
            if k in ("for", "while", "do", "rfor"):
                walk(s.get("s"), conds + ([s["c"]] if s.get("c") else []), True)
                return
            if k in ("blk", "case", "default", "try"):
                walk(s.get("s"), conds, inner)
                walk([h.get("s") for h in s.get("h", ()) if isinstance(h, dict)], conds, inner)
        walk(self.n.get("s"), [], False)
        return out

    def hidden_measure(self, exits):
        """a counter or size that may decide an exit in a way this analysis does not follow"""
        defs = {}
        for z in subnodes([self.n.get("s"), self.n.get("n"), self.n.get("c")]):
            if z["k"] == "decl":
                for d in z["d"]:
                    if d.get("init"):
                        defs.setdefault(d["id"], []).append(d["init"])
            elif z["k"] == "asg":
                r, s = base(z["a"])
                if r["k"] == "ref" and r.get("id") is not None:
                    defs.setdefault(r["id"], []).append(z["b"])
        seen, todo = set(), list(exits)
        top = {id(strip(c)) for c, _ in self.stay()}
        while todo:
            e = todo.pop()
            if e is None or id(e) in seen:
                continue
            seen.add(id(e))
            for z in subnodes(e):
                if z["k"] == "ref" and z.get("id") in defs:
                    todo += defs[z["id"]]
                if z["k"] in ("ref", "mem") and self.kind(z) in ("int", "it") and self.direction(z)[0] in ("inc", "dec", "any") and not self.under_top(z, top):
                    return "'%s' decides an exit" % self.f_text(z)
                if z["k"] == "call" and isinstance(z.get("fn"), dict):
                    if z["ck"] == "mem" and z["fn"]["n"] in SIZES | {"empty"} and self.direction(z)[0] != "const":
                        return "the size '%s' decides an exit" % self.f_text(z)
                    for g in self.M.cg.targets(z["fn"]):
                        if g.get("body") and own(g) and self.counts(g, z):
                            return "%s may count" % g["q"]
        return None

    def under_top(self, z, top):
        return any(any(y is z for y in subnodes(x)) for c, _ in self.stay() for x in [c] if id(strip(x)) in top)

    def counts(self, g, call):
        """a callee that compares a size or an integer that moves from one iteration to the next"""
        kinds = {}
        for w, fl, k, n in self.effects:
            if fl:
                kinds.setdefault(fl[-1], set()).add(k)
        args = list(call["args"])
        if call["ck"] == "op" and g.get("cls"):
            args = args[1:]
        moving = {p["id"] for p, a in zip(g["params"], args) if self.kind(a) == "int" and self.direction(a)[0] != "const"}
        grown = {p["id"] for p, a in zip(g["params"], args) if self.grows(a)}
        for u in self.M.cg.reach(g):
            h = self.M.P.funcs.get(u)
            if h is None or not h.get("body") or not own(h):
                continue
            for z in nodes(h):
                if z["k"] != "bin" or z["op"] not in FLIP:
                    continue
                for y in subnodes([z["a"], z["b"]]):
                    if y["k"] == "call" and isinstance(y.get("fn"), dict) and y["ck"] == "mem" and y["fn"]["n"] == "size":
                        r, s, _ = root_of(y["obj"], self.M.refs.get(u) or {})
                        fl = names(s)
                        ks = kinds.get(fl[-1]) if fl else None
                        if ks and ks & {"grow", "shrink"} and "any" not in ks:
                            return True
                        if h is g and r["k"] == "ref" and r.get("id") in grown:
                            return True
                    if y["k"] == "mem" and y["n"] in kinds:
                        t = h["_m"].types[y["t"]] if y.get("t", -1) >= 0 else {}
                        if t.get("b") in ("int", "uint"):
                            return True
                    if y["k"] == "ref" and h is g and y.get("id") in moving and z["op"] in ("<", ">", "<=", ">=") and self.const(z["a"]) is None and self.const(z["b"]) is None:
                        return True
                    if y["k"] == "ref" and (y.get("sl") or y.get("g")) and not y.get("cv"):
                        t = h["_m"].types[y["t"]] if y.get("t", -1) >= 0 else {}
                        if t.get("b") in ("int", "uint") and not t.get("c"):
                            return True
        return False

    def grows(self, a):
        root, steps, _ = root_of(a, self.refs)
        w = who(root)
        return w is not None and not inside(steps) and any(d in ("inc", "dec") for d, _ in self.moves(w, names(steps), True))

    def f_text(self, e):
        return show_expr(e)[:80]


def show_expr(e):
    e = strip(e)
    k = e.get("k")
    if k == "bin":
        return "%s %s %s" % (show_expr(e["a"]), e["op"], show_expr(e["b"]))
    if k == "un":
        return e["op"] + show_expr(e["e"])
    if k == "ref":
        return str(e.get("n"))
    if k == "mem":
        b = strip(e["b"])
        return e["n"] if b.get("k") == "this" else show_expr(b) + ("->" if e.get("ar") else ".") + e["n"]
    if k in ("int", "flt"):
        return str(e.get("v"))
    if k == "bool":
        return "true" if e["v"] else "false"
    if k == "this":
        return "this"
    if k == "call" and isinstance(e.get("fn"), dict):
        n = e["fn"]["n"]
        if e["ck"] == "mem":
            return "%s.%s(%s)" % (show_expr(e["obj"]), n, ", ".join(map(show_expr, e["args"])))
        if e["ck"] == "op" and len(e["args"]) == 2 and n not in ("operator[]", "operator()"):
            return "%s %s %s" % (show_expr(e["args"][0]), n.replace("operator", ""), show_expr(e["args"][1]))
        if e["ck"] == "op":
            return n.replace("operator", "") + "(" + ", ".join(map(show_expr, e["args"])) + ")"
        return "%s(%s)" % (n, ", ".join(map(show_expr, e["args"])))
    return "<%s>" % k


def x02(ctx):
    P = ctx.prog(defs=("MINI_OPT_TRACING", "MINI_OPT_SERIALIZATION"))
    M = Mods(P)
    seen = {}
    for f in lib_fns(P):
        ctx.functions.add(f["q"])
        for n in nodes(f):
            if n["k"] in ("for", "while", "do", "rfor"):
                L = Loop(f, n, M)
                r, why = L.rank()
                key = (L.where, n["k"])
                if key in seen and seen[key] == (r, why):
                    continue
                seen[key] = (r, why)
                what = "loop at %s in %s" % (L.where, f["q"])
                if r is True:
                    ctx.ok("bounded loop", what, L.where, why)
                elif r is False:
                    ctx.bad("bounded loop", what, L.where, why)
                else:
                    ctx.unk("bounded loop", what, L.where, why)
            elif n["k"] in ("goto", "label"):
                ctx.unk("bounded loop", "jump in %s" % f["q"], place(f, n), "a jump")
    for c in M.cg.cycles():
        fs = [P.funcs[u] for u in c if u in P.funcs]
        if not any(own(f) for f in fs):
            continue
        ctx.bad("no recursion", " -> ".join(sorted(f["q"] for f in fs)), place(fs[0]) if fs else "?", "the functions call each other")
    n = sum(len(v) for v in M.cg.edges.values())
    ctx.ok("no recursion", "%d functions, %d calls between them" % (len(M.cg.edges), n), "")


# ------------------------------------------------------------------------------------------------ X04
def size_invariants(s):
    """sizes of matrices that every loop preserves: [rows(m) == n], by induction over all loops together"""
    from ..loops import get_path
    cand = {}
    for L in s.loops:
        if L.back is None:
            continue
        for ph in L.phis.values():
            if ph.sym.op != "mat" or ph.entry.op not in ("mat", "gite"):
                continue
            for i in (0, 1):
                n = ph.sym.args[i]
                if n.op in ("rows", "cols"):
                    cand[n] = (L, ph, i)
    same = {}       # sizes that were checked to be equal before the loops
    for L in s.loops:
        for l in conjuncts(pc_cond(L.pc)):
            if l.op == "lit" and l.args[1] == "n" and len(l.args[2]) == 1 and l.args[2][0][0] == l.args[2][0][2] == 0:
                t = sorted(terms(l.args[0]).items(), key=lambda z: z[1])
                if len(t) == 2 and t[0][1] == -t[1][1] and all(len(m) == 1 and m[0][1] == 1 for m, _ in t):
                    a, b = sorted((t[0][0][0][0], t[1][0][0][0]), key=lambda z: z.id)
                    if not any(x in cand for x in (a, b)) and a not in same:
                        same[a] = b

    def sizes(v, i):
        out = []
        for x in leaves(v):
            out.append(chase(x.args[i]) if x.op == "mat" else None)
        return out

    def chase(x):
        for _ in range(len(same) + 1):
            y = replace(x, same)
            if y is x:
                break
            x = y
        return x
    while True:
        m = {}
        for n, (L, ph, i) in cand.items():
            e = {x for x in sizes(ph.entry, i)}
            m[n] = e.pop() if len(e) == 1 and None not in e else None
        drop = {n for n, v in m.items() if v is None}
        m = {n: v for n, v in m.items() if v is not None}

        def full(x):
            for _ in range(len(m) + 1):
                y = replace(x, m)
                if y is x:
                    return x
                x = y
            return x
        for n, (L, ph, i) in cand.items():
            if n in drop:
                continue
            w = chase(full(n))
            b = get_path(L.back.mem[ph.key[0]], ph.key[1], s)
            good = lambda x: x.op == "mat" and chase(full(x.args[i])) is w
            if not all(good(x) or dead(c) for x, c in guarded(b, TRUE)):
                drop.add(n)
        if not drop:
            return [eqn(n, full(n)) for n in cand]
        cand = {n: v for n, v in cand.items() if n not in drop}


def guarded(v, c):
    """(leaf, condition) of a gated value"""
    if c is FALSE:
        return
    if v.op != "gite":
        yield v, c
        return
    yield from guarded(v.args[1], and_(c, v.args[0]))
    yield from guarded(v.args[2], and_(c, not_(v.args[0])))


def dead(c):
    return c is FALSE or entails(c, FALSE)[0] is True


def folds(x):
    return {y for y in atoms_of(x, lambda n: n.op == "maxfold")}


def library_facts(goal, facts):
    """what is known about the results of library functions in the goal: ranks, maxima"""
    out = []
    everything = [goal] + list(facts)
    for g in everything:
        for r in atoms_of(g, lambda n: n.op == "rank"):
            d = r.args[0]
            m = next((y for y in (d.args if isinstance(d, Node) else ()) if isinstance(y, Node) and y.op == "mat"), None)
            out.append(geq(r, ZERO))
            if m is not None:
                out += [leq(r, m.args[0]), leq(r, m.args[1])]
    pool = set()
    at_terms(goal, pool, set())
    for fo in folds(goal):
        v, d, c, b = open_maxfold(fo)
        pats = set()
        at_terms(b, pats, set())
        for p in pats:
            for t in pool:
                env = {}
                if contains(p, lambda x: x is v) and match(p, t, v, env) and v in env:
                    k = env[v]
                    out.append(or_(lt(k, ZERO), geq(k, d), not_(subst(c, {v: k})), geq(fo, subst(b, {v: k}))))
    return [x for x in dict.fromkeys(out) if x is not TRUE]


def open_maxfold(fo):
    d, c, x, lv = fo.args
    v = iv(fresh("m"))
    return v, d, _replace_bv(c, {bv(lv): v}, {}), _replace_bv(x, {bv(lv): v}, {})


def accesses(ctx, s, what, extra=()):
    inv = size_invariants(s)
    seen = {}
    for kind, c, pc, cx, loc, fn in s.obl:
        if kind == "optional":
            continue
        subject = "%s: %s in %s" % (what, kind, fn)
        if c is TRUE:
            ctx.ok("conforming", subject, loc)
            continue
        p = pc_cond(pc)
        key = (c, p, tuple(x[0] for x in cx))
        r = seen.get(key)
        if r is None:
            r = seen[key] = settle(s, c, p, cx, list(extra) + inv)
        if r[0] is True:
            ctx.ok("conforming", subject, loc)
        elif r[0] is None:
            ctx.unk("conforming", subject, loc, r[1])
        else:
            ctx.bad("conforming", subject, loc, r[1])


def settle(s, c, p, cx, extra):
    """does an obligation follow from what is known at its program point: (True | False | None, explanation)"""
    if p is FALSE:
        return True, ""
    facts = known(s, p, cx, extra)
    lib = library_facts(c, facts)
    if holds(s, c, p, cx, list(extra) + lib):
        return True, ""
    facts = known(s, p, cx, list(extra) + lib)
    r = decided(c, facts)
    if r[0] is not None:
        return r
    for how, mp in small_cases(s, cx, [c] + facts):
        memo = {}
        c1 = concrete(c, mp, memo)
        f1 = [concrete(f, mp, memo) for f in facts]
        f1 = [x for f in f1 for x in conjuncts(f) if x is not TRUE]
        if c1 is TRUE or FALSE in f1 or entails(and_(*[f for f in f1 if quantified(f) is None and f.size < 200]), FALSE)[0] is True:
            continue
        if decided(c1, f1)[0] is False:
            return False, "%s is relied on but fails %s" % (brief(c, 200), how)
        ds = sorted(atoms_of(and_(c1, *[f for f in f1 if quantified(f) is None]), lambda x: x.op == "rdim"), key=lambda x: x.id)
        if 2 <= len(ds) <= 4:
            for vs in itertools.product((1, 2), repeat=len(ds)):
                mp2, memo = {d: num(v) for d, v in zip(ds, vs)}, {}
                c2 = concrete(c1, mp2, memo)
                f2 = [concrete(f, mp2, memo) for f in f1]
                if c2 is FALSE and all(f is TRUE for f in f2 if atoms_set(f) & atoms_set(c1)) and FALSE not in f2 and decided(c2, [f for f in f2 if f is not TRUE])[0] is False:
                    return False, "%s is relied on but fails %s, dimensions %s" % (brief(c, 200), how, ", ".join("%s = %d" % (brief(d, 60), v) for d, v in zip(ds, vs)))
    return r


def decided(c, facts):
    """the condition follows / does not follow from the facts, all of which are understood; None otherwise"""
    rel = relevant(not_(c), facts + instances(facts, and_(not_(c), *[f for f in facts if quantified(f) is None and f.size < 60])))
    if c.opq or any(x.opq for x in rel):
        return None, "not modelled: " + brief(c, 160)
    have = atoms_set(not_(c))
    if any(f.size >= 400 and atoms_set(f) & have for f in facts) or any(quantified(f) is not None for f in rel):
        return None, "%s: not followed" % brief(c, 160)
    if contains(c, lambda x: x.op == "phi"):
        return None, "%s: depends on earlier iterations" % brief(c, 160)
    doms = [f.args[0][0] if isinstance(f.args[0], tuple) else f.args[0] for f in atoms_of(and_(c, *rel), lambda x: x.op in ("maxfold", "sum"))]
    if len(doms) != len(set(doms)) and entails(and_(*rel), c)[0] is not True:
        return None, "%s: several sums or maxima over the same list" % brief(c, 160)
    r = entails(and_(*rel), c)
    if r[0] is True:
        return True, ""
    if r[0] is None:
        return None, "%s: case split budget exceeded" % brief(c, 160)
    return False, "%s is relied on but does not follow from what was checked before" % brief(c, 200)


def small_cases(s, cx, nodes):
    """special cases in which an obligation may be refuted: the first round of the enclosing loops, lists without elements"""
    first = {}
    for L in s.loops:
        if any(x[0] == L.lid for x in cx):
            for ph in L.phis.values():
                if ph.sym.op == "mat" and ph.entry.op == "mat":
                    first.update({a: b for a, b in zip(ph.sym.args[:2], ph.entry.args[:2]) if a is not b and a.op in ("rows", "cols")})
                elif ph.sym.op != "mat" and ph.entry.sort == ph.sym.sort:
                    first[ph.sym] = ph.entry
    for lid, k, n in cx:
        first[k] = ZERO
    ds = set()
    for n in nodes:
        for f in atoms_of(n, lambda x: x.op in ("maxfold", "sum", "forall")):
            for d in (f.args[0] if isinstance(f.args[0], tuple) else (f.args[0],)):
                d = d[-1] if isinstance(d, tuple) else d
                if isinstance(d, Node) and d.op == "size":
                    ds.add(d)
    ds = sorted(ds, key=lambda x: x.id)[:4]
    out = []
    for choice in itertools.product((None, 0, 1, 2), repeat=len(ds)):
        mp = {d: num(v) for d, v in zip(ds, choice) if v is not None}
        rounds = [(k, n if n is None else concrete(n, mp, {})) for lid, k, n in cx]
        if any(n is not None and n.op == "num" and n.args[0] < 1 for k, n in rounds):
            continue        # a loop around the access is not entered
        for k, n in rounds:
            if n is not None and n.op == "num":
                mp[k] = ZERO
        out.append((choice.count(2), sum(v is not None for v in choice), choice.count(1), "with " + ", ".join("%s = %d" % (brief(d, 50), v) for d, v in zip(ds, choice) if v is not None), mp))
    out.sort(key=lambda x: x[:3])
    for _, _, _, how, mp in out[:64]:
        if mp:
            yield how, mp
    if first:
        for _, _, _, how, mp in out[:12]:
            yield "in the first iteration " + how, dict(first) | mp


def few(d):
    return [num(i) for i in range(int(d.args[0]))] if d is not None and d.op == "num" and d.args[0] in (1, 2) else None


def concrete(n, mp, memo):
    """n in a special case (nothing is left of maxima over empty ranges)"""
    def step(x):
        r = mp.get(x)
        if r is not None:
            return r if r is x else rewrite(r, step, memo)
        if x.op == "lit" and x.args[1] == "n":
            for m, co in terms(x.args[0]).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "maxfold" and rewrite(m[0][0].args[0], step, memo) is ZERO:
                    # the maximum over nothing is below everything
                    return TRUE if any((i[0] if co > 0 else i[2]) is None for i in x.args[2]) else FALSE
        if x.op == "forall":
            v = few(rewrite(x.args[0], step, memo))
            if v is not None:
                return and_(*[rewrite(_replace_bv(x.args[1], {bv(x.args[2]): i}, {}), step, memo) for i in v])
        if x.op == "maxfold" and x.args[1] is TRUE:
            v = few(rewrite(x.args[0], step, memo))
            if v is not None:
                return max_(*[rewrite(_replace_bv(x.args[2], {bv(x.args[3]): i}, {}), step, memo) for i in v])
        if x.op == "sum" and len(x.args[0]) == 1:
            v = few(rewrite(x.args[0][0], step, memo))
            if v is not None:
                return add(*[rewrite(_replace_bv(x.args[1], {bv(x.args[2]): i}, {}), step, memo) for i in v])
        if x.op == "max":
            xs = []
            least = [y for y in x.args[0] if y.op == "num"]
            for y in x.args[0]:
                d = rewrite(y.args[0], step, memo) if y.op == "maxfold" else None
                if d is ZERO:
                    continue
                v = few(d) if d is not None and y.args[1] is not TRUE and least else None
                if v is not None:       # the entries that count, the others below another operand
                    for i in v:
                        xs.append(ite(rewrite(_replace_bv(y.args[1], {bv(y.args[3]): i}, {}), step, memo), rewrite(_replace_bv(y.args[2], {bv(y.args[3]): i}, {}), step, memo), least[0]))
                else:
                    xs.append(rewrite(y, step, memo))
            return max_(*xs) if xs else None
        return None
    return rewrite(n, step, memo)


def x04(ctx):
    from . import qp, qp2, nls
    qp2.accepted(ctx)
    R = qp.qprun(ctx)
    accesses(ctx, R.s, "interior point")
    N = qp2.nullrun(ctx)
    accesses(ctx, N.s, "null space")
    E = nls.nlsrun(ctx)
    accesses(ctx, E.s, "least squares")
    ctx.session(R.s)
    ctx.session(N.s)
    ctx.session(E.s)


RULES = {"X02": x02, "X04": x04}
LEVELS = {"X02": "other", "X04": "proof"}
