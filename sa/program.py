"""Loads /repo's translation units through the clang-based exporter into one resolved program."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MINI_OPT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TUS = ["qp", "nonlinear", "residual", "structs", "serialization", "tracing"]
BASE = ["-std=c++17", "-DNDEBUG", "-DEIGEN_NO_DEBUG", "-DFMT_HEADER_ONLY",
        "-I/usr/include/eigen3", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-Wno-everything"]


class AnalysisError(Exception):
    pass


class AnchorMissing(Exception):
    """the current source has no function of this name: nothing can be decided about it"""


def exporter():
    r = subprocess.run(["bash", os.path.join(VERIF, "tools/astexport/build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the exporter: " + r.stderr[-2000:])
    return r.stdout.strip().splitlines()[-1]


def repo_sources():
    out = []
    for d in ("include", "source"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash(extra=()):
    h = hashlib.sha256()
    for p in repo_sources():
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    for p in extra:
        h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h


def source_list():
    """the library's translation units of the current tree (every .cc below source/)"""
    d = os.path.join(REPO, "source")
    return [p for p in repo_sources() if p.startswith(d) and p.endswith((".cc", ".cpp", ".cxx"))]


def export(sources=None, defs=("MINI_OPT_SERIALIZATION", "MINI_OPT_TRACING"), flags=(), witness=True):
    """export all TUs (in parallel, cached by content); returns list of parsed JSON modules"""
    exe = exporter()
    srcs = list(sources if sources is not None else source_list())
    wit = os.path.join(VERIF, "sa", "witness.cc")
    if witness and os.path.exists(wit):
        srcs.append(wit)
    args = BASE + ["-I" + os.path.join(REPO, "include")] + ["-D" + d for d in defs] + list(flags)
    base = tree_hash([wit] if os.path.exists(wit) else [])
    base.update(exe.encode())
    base.update(" ".join(args).encode())
    bh = base.hexdigest()
    cdir = os.path.join(BUILD, "ast")
    os.makedirs(cdir, exist_ok=True)

    def one(src):
        key = hashlib.sha256((bh + src).encode()).hexdigest()[:24]
        out = os.path.join(cdir, key + ".json")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([exe, tmp, src, REPO + "," + os.path.join(VERIF, "sa"), "--"] + args, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisError("cannot parse %s: %s" % (src, (r.stderr or r.stdout)[-3000:]))
            os.replace(tmp, out)
        return src, json.load(open(out))
    with ThreadPoolExecutor(8) as ex:
        mods = list(ex.map(one, srcs))
    prune(cdir)
    return mods


def prune(cdir, keep=80):
    try:
        fs = sorted((os.path.join(cdir, f) for f in os.listdir(cdir)), key=os.path.getmtime)
        for f in fs[:-keep]:
            os.remove(f)
    except OSError:
        pass


class Ty:
    """a canonical type of one TU"""
    __slots__ = ("s", "raw", "mod")

    def __init__(self, raw, mod):
        self.raw, self.mod, self.s = raw, mod, raw["s"]

    @property
    def rec(self):
        return self.raw.get("rec")


class Module:
    def __init__(self, src, j):
        self.src = src
        self.j = j
        self.types = j["types"]
        self.files = j["files"]
        self.funcs = {}
        for f in j["functions"]:
            f["_m"] = self
            self.funcs.setdefault(f["u"], f)


class Program:
    def __init__(self, mods):
        self.mods = [Module(s, j) for s, j in mods]
        self.funcs = {}          # usr -> function (with body preferred)
        self.records = {}
        self.enums = {}
        self.globals = {}
        for m in self.mods:
            for u, f in m.funcs.items():
                o = self.funcs.get(u)
                if o is None or (not o.get("body") and f.get("body")):
                    self.funcs[u] = f
            for r in m.j["records"]:
                r["_m"] = m
                o = self.records.get(r["u"])
                if o is None or len(r.get("fields", ())) > len(o.get("fields", ())):
                    self.records[r["u"]] = r
            for e in m.j["enums"]:
                self.enums.setdefault(e["q"], e)
            for g in m.j["globals"]:
                g["_m"] = m
                self.globals.setdefault(g.get("u") or g["q"], g)
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.rec_by_q = {}
        for r in self.records.values():
            self.rec_by_q.setdefault(r["q"], []).append(r)

    def ctors(self, u):
        if not hasattr(self, "_ctors"):
            self._ctors = {}
            for f in self.funcs.values():
                if f.get("kind") == "ctor" and f.get("body") is not None and not f.get("defaulted") and f.get("clst") is not None:
                    t = f["_m"].types[f["clst"]]
                    if t and t.get("rec"):
                        self._ctors.setdefault(t["rec"], []).append(f)
        return self._ctors.get(u, [])

    def fn(self, q, n=None, pred=None):
        c = [f for f in self.by_q.get(q, []) if (n is None or len(f["params"]) == n) and (pred is None or pred(f))]
        if not c:
            raise AnchorMissing("%s not found" % q)
        return c[0]


_prog = {}


def load(defs=("MINI_OPT_SERIALIZATION", "MINI_OPT_TRACING"), flags=(), sources=None, witness=True):
    key = (tuple(defs), tuple(flags), tuple(sources or ()), witness)
    if key not in _prog:
        _prog[key] = Program(export(sources, defs, flags, witness))
    return _prog[key]
