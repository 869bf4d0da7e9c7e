"""Obligations, verdicts and evidence of the rules."""
CASE = 1
import json, os, time, traceback
from .harness import *
from .terms import infeasible, Budget
from . import reval, program

VERIF = program.VERIF


class Undecided(Exception):
    """the construct is outside what the analysis models: no verdict"""


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []            # (status, rule, subject, loc, detail)
        self.rules = {}
        self.t0 = time.time()
        self._prog = {}
        self.cache = {}
        self.assumptions = []
        self.functions = set()
        self.callsites = 0
        self.notes = []
        self.state = set()       # loops whose header values are arbitrary reachable states rather than results
        self.cases = False       # assumptions with much case structure: use decide() / entails()

    CONFIGS = {      # further build configurations of the thorough tier
        "Q": {"no switches": dict(defs=()), "debug": dict(flags=("-UNDEBUG", "-UEIGEN_NO_DEBUG"))},
        "N": {"no switches": dict(defs=()), "debug": dict(flags=("-UNDEBUG", "-UEIGEN_NO_DEBUG"))},
        "R": {"no switches": dict(defs=()), "debug": dict(flags=("-UNDEBUG", "-UEIGEN_NO_DEBUG"))},
        "S": {"debug": dict(flags=("-UNDEBUG", "-UEIGEN_NO_DEBUG"))},
        "T": {"debug": dict(flags=("-UNDEBUG", "-UEIGEN_NO_DEBUG"))},
        "X": {"debug": dict(flags=("-UNDEBUG", "-UEIGEN_NO_DEBUG"))},
    }
    config, given = "", {}

    def configure(self, name, kw):
        self.config, self.given = name, kw
        self.cache, self._prog, self.state, self.cases = {}, {}, set(), False

    def prog(self, **kw):
        return program.load(**(kw or self.given))

    # ------------------------------------------------------------------------------------ verdicts
    def add(self, status, rule, subject, loc="", detail=""):
        if self.config:
            subject += " [%s configuration]" % self.config
        self.obs.append((status, rule, subject, loc, detail))
        return status is True

    def ok(self, rule, subject, loc="", detail=""):
        return self.add(True, rule, subject, loc, detail)

    def bad(self, rule, subject, loc, detail=""):
        return self.add(False, rule, subject, loc, detail)

    def unk(self, rule, subject, loc="", detail=""):
        return self.add(None, rule, subject, loc, detail)

    def expect(self, cond, rule, subject, loc="", detail=""):
        return self.add(bool(cond), rule, subject, loc, "" if cond else detail)

    def eq(self, rule, subject, got, want, loc="", under=TRUE, depth=24):
        """got and want denote the same value whenever `under` holds"""
        try:
            got, want = nonempty_any(got), nonempty_any(want)
            if got is want:
                return self.ok(rule, subject, loc)
            if got.op == "mat" == want.op and got.args[0] is want.args[0] and got.args[1] is want.args[1]:
                # only elements that exist matter
                under = and_(under, geq(got.args[0], ONE), geq(got.args[1], ONE))
                if under is FALSE:
                    return self.ok(rule, subject, loc)
            if got.opq or (under.opq and False):
                return self.unk(rule, subject, loc, "value not modelled: " + brief(got, 200))
            if self.cases:
                small = [c for c in conjuncts(under) if c.size <= 60]
                r = None
                if under is not TRUE and len(small) < len(conjuncts(under)):    # a weaker assumption often suffices
                    r, info = decide(got, want, and_(*small), 400)
                    if r is False and info and not any(x.opq for x in info[1:]) and self.refute(info[1], info[2], info[0].values() if isinstance(info[0], dict) else ()) is False:
                        # is this case possible under everything that is known?
                        try:
                            possible = infeasible(info[0], conjuncts(under), frozenset(), [1500]) is False
                        except Budget:
                            possible = False
                    else:
                        possible = False
                    if not possible and r is not True:
                        r, info = decide(got, want, under)
                elif r is not True:
                    r, info = decide(got, want, under)
            else:
                r, info = equal(got, want, under, depth)
                if r is False:
                    try:        # the case found may contradict itself
                        if infeasible(dict(info[0]), conjuncts(under), frozenset(), [1500]) is not False:
                            r, info = decide(got, want, under)
                    except Budget:
                        r = None
            if r is True:
                return self.ok(rule, subject, loc)
            if r is None:
                return self.unk(rule, subject, loc, "case split budget exceeded")
            facts, a, b = info
            if a.opq or b.opq or any(f.opq for f in facts.values()):
                return self.unk(rule, subject, loc, "value not modelled: " + brief(a, 200))
            if self.left(a, b) or any(self.left(f, under) for f in (facts.values() if isinstance(facts, dict) else ())):
                return self.unk(rule, subject, loc, "result of a loop that was not summarised: " + brief(a, 200))
            g = self.refute(a, b, facts.values() if isinstance(facts, dict) else ())
            if g is False and isinstance(facts, dict) and any(contains(x, lambda n: n.op == "max") for x in (a, b)) and \
                    reval.separated(a, b, list(facts.values()), 3000, 4) is False:
                g = True        # which argument of a maximum counts may depend on how the quantities compare
            if g is True:
                return self.unk(rule, subject, loc, "normal forms differ in shape only: %s vs %s" % (brief(a, 160), brief(b, 160)))
            if g is None:
                return self.unk(rule, subject, loc, "comparison of %s with %s gave no answer" % (brief(a, 160), brief(b, 160)))
            case = ", ".join(sorted({show(f)[:80] for f in facts.values()}))[:300 * CASE]
            return self.bad(rule, subject, loc, "value is %s, required %s%s" % (brief(unf(a), 420), brief(unf(b), 420), (" (case: %s)" % case) if case else ""))
        except (RecursionError, MemoryError) as x:
            return self.unk(rule, subject, loc, "comparison failed: %s" % type(x).__name__)

    def left(self, a, b):
        """does one of the values, but not the other, depend on results of loops whose effect is not known in closed form?"""
        x, y = ({m for m in atoms_of(n, lambda m: m.op == "phi") if str(m.args[0]).rsplit("|", 1)[0] not in self.state} for n in (a, b))
        return bool(x - y)

    def refute(self, a, b, facts=()):
        # what is known about free index variables matters where conditions below binders speak about them
        binders = lambda x: x.op in ("sum", "forall", "maxfold", "stack", "fold")
        local = ()
        if contains(a, binders) or contains(b, binders):
            ivs = a.ivs | b.ivs
            local = [f for f in facts if f.ivs & ivs]
        return reval.agree(a, b, seed=self.seed, facts=local)

    def imp(self, rule, subject, p, q, loc="", under=TRUE):
        """p implies q"""
        if self.cases:
            try:
                p = and_(p, under)
                if p.opq or q.opq:
                    pp, qq = [c for c in conjuncts(p) if not c.opq], [c for c in conjuncts(q) if not c.opq]
                    if q.opq:
                        return self.unk(rule, subject, loc, "condition not modelled: " + brief(q, 200))
                    p = and_(*pp)
                r, info = entails(p, q)
            except (RecursionError, MemoryError) as x:
                return self.unk(rule, subject, loc, "case analysis failed: %s" % type(x).__name__)
            if r is True:
                return self.ok(rule, subject, loc)
            if r is None:
                return self.unk(rule, subject, loc, "case split budget exceeded")
            if self.left(q, p):
                return self.unk(rule, subject, loc, "result of a loop that was not summarised: " + brief(q, 200))
            return self.bad(rule, subject, loc, "%s does not follow from the conditions on this path" % brief(q, 300))
        return self.eq(rule, subject, and_(p, not_(q)), FALSE, loc, under)

    def session(self, s):
        """account for what a session analysed"""
        self.functions |= set(s.analysed.values())
        self.callsites += len(s.callsites)
        for n in s.notes:
            if n not in self.notes:
                self.notes.append(n)

    # ------------------------------------------------------------------------------------ output
    def finish(self, explanation, level):
        bad = [o for o in self.obs if o[0] is False]
        unk = [o for o in self.obs if o[0] is None]
        good = [o for o in self.obs if o[0] is True]
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o[1], [0, 0, 0])
            r[0 if o[0] else 1 if o[0] is None else 2] += 1
        cov = {
            "explanation": explanation,
            "obligations": len(self.obs), "discharged": len(good), "undecided": len(unk), "violated": len(bad),
            "rules": {k: {"discharged": a, "undecided": b, "violated": c} for k, (a, b, c) in sorted(rules.items())},
            "functions_analysed": len(self.functions), "functions": sorted(self.functions)[:200],
            "call_sites_followed": self.callsites,
            "samples": [{"rule": o[1], "subject": o[2], "location": o[3], "status": "discharged"} for o in good[:12]],
            "undecided_obligations": [{"rule": o[1], "subject": o[2], "location": o[3], "why": o[4]} for o in unk[:40]],
            "violations": [{"rule": o[1], "subject": o[2], "location": o[3], "why": o[4]} for o in bad[:40]],
            "unmodelled_constructs": ["%s: %s" % n for n in self.notes[:40]],
            "checker_cmd": "./check %s" % self.pid,
            "trusted_base": ["clang 18 front end (AST)", "tools/astexport", "sa/ (abstract interpreter, library models, rules)",
                             "real-number semantics for double arithmetic"],
        }
        return {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}


def unf(n):
    """one level of unfolding for messages"""
    return n


def nonempty_any(v):
    return nonempty(v) if v.op == "mat" else v
