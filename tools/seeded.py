"""Applies each planted bug to a copy of /repo and runs the check of its property"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(d):
    name = os.path.basename(d)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seeded")
    try:
        dst = os.path.join(tmp, "repo")
        shutil.copytree("/repo", dst, symlinks=True, ignore=shutil.ignore_patterns(
            "node_modules", ".git", "npm"))
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=dst,
                           capture_output=True, text=True)
        if r.returncode:
            return name, "patch does not apply"
        out = []
        r = subprocess.run([sys.executable, "check.py", prop, "quick"], cwd=ROOT, text=True,
                           capture_output=True, env=dict(os.environ, VERIF_REPO=dst,
                                                         VERIF_EVIDENCE=tmp))
        if r.returncode == 1:
            lines = [x.strip() for x in r.stdout.splitlines() if " | " in x]
            out.append("caught by {}".format(prop))
        else:
            out.append("missed by {} (exit {})".format(prop, r.returncode))
        return name, ", ".join(out)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ds = sorted(glob.glob(os.path.join(ROOT, "seeded", "*")))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        res = dict(ex.map(run, ds))
    for k, v in res.items():
        print(k, v)
    with open(os.path.join(ROOT, "tools", "seeded_results.json"), "w") as fil:
        json.dump(res, fil, indent=1, sort_keys=True)
        fil.write("\n")
