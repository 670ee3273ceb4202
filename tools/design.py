"""Writes DESIGN.md"""
import ast
import glob
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def rules(path):
    """[(name, text)] of the rules of a check"""
    tree = ast.parse(open(path).read())
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" \
                and len(n.args) == 2 and all(isinstance(a, ast.Constant) for a in n.args):
            out.append((n.lineno, n.args[0].value, n.args[1].value))
    doc = ast.get_docstring(tree) or ""
    ass = []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            try:
                ass = ast.literal_eval(n.value)
            except ValueError:
                ass = []
    return doc, [(a, b) for _, a, b in sorted(out)], ass


def main():
    out = [open(os.path.join(HERE, "design_head.md")).read()]
    manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    checks = {c["property"]: c for c in manifest["checks"]}
    na = {c["property"]: c["reason"] for c in manifest["not_applicable"]}
    known = open(os.path.join(ROOT, "known_findings.txt")).read().splitlines()
    out.append("\n## 4. Properties\n")
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        out.append("### {} {}\n".format(i, p["title"]))
        out.append(p["statement"] + "\n")
        if i in na:
            out.append("Not applicable: " + na[i] + "\n")
            continue
        c = checks[i]
        doc, rs, ass = rules(os.path.join(ROOT, "checks", i.lower() + ".py"))
        out.append("*Decided by*: {}. {}\n".format(c["technique"], c["level_note"]))
        body = " ".join(doc.split("\n\n", 1)[1].split()) if "\n\n" in doc else ""
        if body:
            out.append(body + "\n")
        out.append("*Quantifies over*: {}. *Tests cannot settle it*: {}\n".format(
            p["quantifier"]["text"], p["why_tests_cant"]))
        for a, b in rs:
            out.append("* `{}` — {}".format(a, b))
        if ass:
            out.append("* Assumed: " + " ".join(ass))
        out.append("")
    out.append("## 5. Defects found in noWorkflow\n")
    out.append("Repaired (commits in /repo):\n")
    for k in known:
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", k)
        if m:
            out.append("* {} `{}` {}".format(*m.groups()))
    out.append("\nRecorded as known findings (`known_findings.txt`):\n")
    for k in known:
        m = re.match(r"property=(\w+) key=(.*?) :: (.*)", k)
        if m:
            out.append("* {} `{}`: {}".format(*m.groups()))
    out.append("\n## 6. Planted bugs and refactorings\n")
    out.append("Each planted bug compiles, passes the tests and fails its demonstration. Which "
               "check reports it (last run of `tools/seeded.py`):\n")
    res = {}
    f = os.path.join(HERE, "seeded_results.json")
    if os.path.exists(f):
        res = json.load(open(f))
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        out.append("* `{}` ({}): {} Needs: {} **{}**".format(
            n, m["property"], m["what_it_breaks"].rstrip(".") + ".", m["needs"].rstrip(".") + ".",
            res.get(n, "not run")))
    out.append("\nEvery check was also run against dozens of one-line mutations of the code it "
               "reads (each must be reported) and against refactorings that keep the behaviour "
               "(extracted helpers, inverted conditions, tables instead of chains of ifs, "
               "comprehensions instead of loops, renamed locals; none may be reported). Checks "
               "were corrected where either failed; false alarms found on the way were corrected "
               "in the rules and are not listed as findings.\n")
    out.append(open(os.path.join(HERE, "design_tail.md")).read())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as fil:
        fil.write("\n".join(out))


main()
