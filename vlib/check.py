"""Obligations, known findings, evidence and exit codes of the checks."""
import json
import os
import sys
import time
import traceback

from .project import Project, AnalysisBroken
from .absint import Interp, show
from . import effects

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class RecordingInterp(Interp):
    """Notes in the context what has been analysed"""
    ctx = None

    def run(self, func, *args, **kw):
        self.truncated = False
        paths = Interp.run(self, func, *args, **kw)
        self.ctx.functions.update(self.functions_seen)
        self.ctx.paths += len(paths)
        if self.truncated:
            self.ctx.truncated.append(func.qual)
        return paths

    def run_value(self, *args, **kw):
        paths = Interp.run_value(self, *args, **kw)
        self.ctx.functions.update(self.functions_seen)
        self.ctx.paths += len(paths)
        return paths


class Ctx(object):
    """Collects the obligations of one check"""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.project = Project()
        self.obligations = []     # (rule, construct, ok, detail, site)
        self.seen = {}
        self.rules = {}           # rule -> text
        self.functions = {}
        self.paths = 0
        self.truncated = []
        self.broken = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------- recording
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, ok, detail="", site=""):
        """One obligation: `construct` satisfies `rule`.

        The same (rule, construct) may be met on several paths; it fails when
        one of them fails."""
        key = (rule, construct)
        if key in self.seen:
            i = self.seen[key]
            if not ok and self.obligations[i][2]:
                self.obligations[i] = (rule, construct, False, detail, site)
            return ok
        self.seen[key] = len(self.obligations)
        self.obligations.append((rule, construct, bool(ok), detail, site))
        return ok

    def fail(self, rule, construct, detail="", site=""):
        return self.ob(rule, construct, False, detail, site)

    def need(self, rule, minimum):
        """A rule that matches fewer sites than confirmed gives no verdict"""
        n = sum(1 for r in self.obligations if r[0] == rule)
        if n < minimum:
            self.broken.append("rule {}: {} instances, expected at least {}".format(
                rule, n, minimum))

    # -------------------------------------------------------------- analysis
    def interp(self, **kw):
        opts = {k: kw.pop(k) for k in ("loops", "max_depth", "max_states") if k in kw}
        it = RecordingInterp(self.project, **opts)
        it.ctx = self
        for k, v in kw.items():
            setattr(it, k, v)
        return it

    def paths_of(self, it, func, **kw):
        """Abstract paths of a function; records what was analysed"""
        paths = it.run(func, **kw)
        if not paths:
            raise AnalysisBroken("no path through {}".format(func.qual))
        return paths

    def closure_paths(self, it, fval, args, st=None, kwargs=()):
        return it.run_value(fval, args, st, kwargs)


def load_known(prop):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as fil:
        for line in fil:
            line = line.strip()
            if not line.startswith("property="):
                continue
            head, _, text = line.partition(" :: ")
            pid, _, key = head.partition(" key=")
            if pid != "property=" + prop:
                continue
            out[key.strip()] = text.strip()
    return out


def main(prop, mod):
    start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    ctx = None
    try:
        ctx = Ctx(prop, tier)
        rules = [getattr(mod, n) for n in mod.RULES] if hasattr(mod, "RULES") else [mod.run]
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property={} {}".format(prop, e))
        return 3
    for fn in rules:
        try:
            fn(ctx)
        except AnalysisBroken as e:
            ctx.broken.append("{}: {}".format(fn.__name__, e))
        except Exception:   # an engine failure is no verdict, never a pass
            ctx.broken.append("{}: {}".format(fn.__name__, traceback.format_exc()))
    try:
        effects.check(ctx)
    except Exception:
        ctx.broken.append("effects: {}".format(traceback.format_exc()))
    known = load_known(prop)
    failed = [o for o in ctx.obligations if not o[2]]
    viol, listed = [], []
    for o in failed:
        key = "{}|{}".format(o[0], o[1])
        (listed if key in known else viol).append(o)
    for o in listed:
        key = "{}|{}".format(o[0], o[1])
        print("KNOWN-FINDING: property={} {}".format(prop, known[key] or key))
    by_rule = {}
    for r, c, ok, d, s in ctx.obligations:
        t = by_rule.setdefault(r, {"rule": ctx.rules.get(r, r), "instances": 0, "held": 0,
                                   "samples": []})
        t["instances"] += 1
        t["held"] += bool(ok)
        if len(t["samples"]) < 4:
            t["samples"].append("{} {}".format(c, "({})".format(s) if s else ""))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", "") or (mod.__doc__ or "").strip(),
            "obligations": len(ctx.obligations),
            "discharged": len(ctx.obligations) - len(failed),
            "functions_analysed": len(ctx.functions),
            "functions": sorted("{} ({})".format(k, v) for k, v in ctx.functions.items())[:400],
            "abstract_paths": ctx.paths,
            "modules_parsed": len(ctx.project.modules),
            "modules_not_parsed": ctx.project.unparsed,
            "rules": by_rule,
            "known_findings": ["{}|{}".format(o[0], o[1]) for o in listed],
            "state_limit_reached_in": ctx.truncated,
            "no_verdict": ctx.broken,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
        "wall_s": round(time.time() - start, 3),
        "violations": len(viol),
    }
    edir = os.path.join(VERIF, "evidence")
    if not os.path.isdir(edir):
        os.makedirs(edir)
    with open(os.path.join(edir, prop + ".json"), "w") as fil:
        json.dump(evidence, fil, indent=1)
    print("{}: {} obligations, {} held, {} functions, {} abstract paths, {:.1f}s".format(
        prop, len(ctx.obligations), len(ctx.obligations) - len(failed),
        len(ctx.functions), ctx.paths, time.time() - start))
    if os.environ.get("VERIF_VERBOSE"):
        for r, t in by_rule.items():
            print("  {}: {}/{}".format(r, t["held"], t["instances"]))
    for b in ctx.broken:
        print("ANALYSIS-BROKEN property={} {}".format(prop, b))
    if viol:
        rep = os.path.join(edir, prop + ".violations.txt")
        with open(rep, "w") as fil:
            for r, c, _, d, s in viol:
                fil.write("rule: {}\n  what: {}\n  construct: {}\n  site: {}\n  detail: {}\n".format(
                    r, ctx.rules.get(r, r), c, s, d))
        for r, c, _, d, s in viol:
            print("  {} | {} {} :: {}".format(r, c, s, d))
        print("VIOLATION property={} replay={}".format(prop, os.path.relpath(rep, VERIF)))
        return 1
    if ctx.broken:
        return 3
    return 0
