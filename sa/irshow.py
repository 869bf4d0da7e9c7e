"""compact printer of exported functions (debugging, diagnostics)"""
import sys


def ty(m, i):
    return m.types[i]["s"] if isinstance(i, int) and i >= 0 else "?"


def ex(e, m, T=False):
    if e is None:
        return "_"
    k = e.get("k")
    g = lambda x: ex(x, m, T)
    t = ("<" + ty(m, e["t"])[:70] + ">") if T and "t" in e else ""
    if k == "cast":
        return "(%s:%s)%s" % (e["ck"], ty(m, e["t"])[:60], g(e["e"]))
    if k in ("int", "flt", "bool"):
        return str(e["v"])
    if k == "str":
        return repr(e["v"])
    if k == "ref":
        return e["n"] + ("'" if e.get("g") else "") + t
    if k == "enum":
        return e["n"]
    if k == "mem":
        return "%s%s%s%s" % (g(e["b"]), "->" if e.get("ar") else ".", e["n"], t)
    if k == "call":
        a = ", ".join(g(x) for x in e["args"])
        fn = e.get("fn") or {}
        nm = fn.get("q", "?") if fn else g(e.get("fe"))
        if e["ck"] == "mem":
            return "%s%s%s(%s)%s" % (g(e["obj"]), "->" if e.get("ar") else ".", nm, a, t)
        return "%s[%s%s](%s)%s" % (nm, e["ck"], e.get("op", ""), a, t)
    if k == "ctor":
        return "CTOR %s(%s)" % (ty(m, e["t"])[:80], ", ".join(g(x) for x in e["args"]))
    if k in ("bin", "asg"):
        return "(%s %s %s)" % (g(e["a"]), e["op"], g(e["b"]))
    if k == "un":
        return "(%s%s%s)" % (e["op"], "post" if e.get("post") else "", g(e["e"]))
    if k == "cond":
        return "(%s ? %s : %s)" % (g(e["c"]), g(e["a"]), g(e["b"]))
    if k == "ilist":
        return "{%s}%s" % (", ".join(g(x) for x in e["e"]), ":" + ty(m, e["t"])[:60])
    if k == "idx":
        return "%s[%s]" % (g(e.get("a") or e.get("b")), g(e.get("i")))
    parts = []
    for kk, v in e.items():
        if kk in ("k", "l", "t", "f", "cl"):
            continue
        if isinstance(v, dict):
            parts.append("%s=%s" % (kk, g(v)))
        elif isinstance(v, list) and v and isinstance(v[0], dict) and "k" in v[0]:
            parts.append("%s=[%s]" % (kk, ", ".join(g(x) for x in v)))
        else:
            parts.append("%s=%s" % (kk, str(v)[:60]))
    return "%s(%s)" % (k, ", ".join(parts))


def st(s, m, d=0, out=None, T=False):
    out = out if out is not None else []
    p = "  " * d
    if s is None:
        return out
    k = s.get("k")
    if k == "blk":
        for x in s["s"]:
            st(x, m, d, out, T)
    elif k == "decl":
        for v in s["d"]:
            out.append("%s%s %s#%s = %s" % (p, ty(m, v["t"])[:120] if "t" in v else "?", v.get("n"), v.get("id"), ex(v.get("init"), m, T) if v.get("init") else "_"))
    elif k == "if":
        if s.get("i"):
            st(s["i"], m, d, out, T)
        if s.get("v"):
            out.append(p + "ifvar %s" % str(s["v"])[:100])
        out.append("%sif %s%s" % (p, "constexpr " if s.get("cx") else "", ex(s["c"], m, T)))
        st(s["a"], m, d + 1, out, T)
        if s.get("b"):
            out.append(p + "else")
            st(s["b"], m, d + 1, out, T)
    elif k in ("for", "while", "do"):
        out.append("%s%s init/cond=%s inc=%s" % (p, k, ex(s.get("c"), m, T), ex(s.get("n"), m, T) if s.get("n") else "_"))
        if s.get("i"):
            st(s["i"], m, d + 2, out, T)
        st(s["s"], m, d + 1, out, T)
    elif k == "rfor":
        out.append("%srfor %s : %s" % (p, s["v"].get("n"), ex(s["r"], m, T)))
        st(s["s"], m, d + 1, out, T)
    elif k == "ret":
        out.append("%sret %s" % (p, ex(s.get("e"), m, T)))
    elif k in ("switch", "case", "default", "try"):
        out.append("%s%s %s" % (p, k, ex(s.get("c") or s.get("v"), m, T)))
        if isinstance(s.get("s"), dict):
            st(s["s"], m, d + 1, out, T)
        elif isinstance(s.get("s"), list):
            for x in s["s"]:
                st(x, m, d + 1, out, T)
    elif k in ("break", "continue", "null_s"):
        out.append(p + k)
    else:
        out.append(p + ex(s, m, T))
    return out


def show(f, T=False):
    m = f["_m"]
    h = "%s(%s) -> %s" % (f["q"], ", ".join("%s %s#%s" % (ty(m, x["t"]), x["n"], x.get("id")) for x in f["params"]), ty(m, f["ret"]))
    out = [h]
    for i in f.get("inits", []):
        out.append("  init " + str({k: v for k, v in i.items() if k != "e"}) + " " + ex(i.get("e"), m, T))
    st(f.get("body"), m, 1, out, T)
    return "\n".join(out)


if __name__ == "__main__":
    from . import program
    p = program.load()
    for q in sys.argv[1:]:
        for f in p.by_q.get(q, []):
            print(show(f))
            print()
