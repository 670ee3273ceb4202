"""Writes spec/effects/<property>.json: the effects of the functions that implement
each property, from the current tree.  Run it only when the specification changes
on purpose; no check runs it."""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from vlib.check import Ctx
from vlib import effects
from tools.effects_map import MAP, SKIP


def main(only):
    memo = {}
    ctx = Ctx("X", "quick")
    names = effects.known_names(ctx) - {"put"}
    for prop, rows in sorted(MAP.items()):
        if only and prop not in only:
            continue
        out = {}
        for q, f in sorted(effects.functions(ctx).items()):
            if not any(re.match(m + "$", q.split(":")[0]) and re.match(n + "$", q.split(":")[1])
                       for m, n in rows) or any(re.search(s, q) for s in SKIP):
                continue
            if q not in memo:
                try:
                    memo[q] = effects.summary(ctx, f, limit=2)
                except effects.Timeout:
                    memo[q] = None
                if memo[q] is None:
                    print("not specified:", q)
            if memo[q]:
                spec = effects.specify(memo[q])
                for e in spec:
                    if e["kind"] == "call" and e["name"] in names:
                        e["project"] = True
                if spec:
                    out[q] = spec
        os.makedirs(os.path.join(VERIF, "spec", "effects"), exist_ok=True)
        with open(os.path.join(VERIF, "spec", "effects", prop + ".json"), "w") as fil:
            json.dump(out, fil, indent=0, sort_keys=True)
        print(prop, len(out), "functions", sum(len(x) for x in out.values()), "effects")


if __name__ == "__main__":
    main(sys.argv[1:])
