"""setup_cmd: the engine parses the tree and can tell a broken probe from a good one"""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast                                          # noqa
from vlib.project import Project, FuncInfo          # noqa
from vlib.absint import Interp                      # noqa

p = Project()
m = p.module("now.persistence.content.safeopen")


def outcome(src):
    f = FuncInfo(m, ast.parse(src).body[0])
    it = Interp(p)
    it.raiser = lambda t: ["Exception*"] if "risky" in repr(t) else ()
    return it.run(f)


good = outcome("def f(x):\n    x.a()\n    try:\n        x.risky()\n    finally:\n        x.b()\n")
bad = outcome("def f(x):\n    x.a()\n    x.risky()\n    x.b()\n")
closed = [any("b(" in repr(e.term) for e in q.events) for q in good]
leaky = [any("b(" in repr(e.term) for e in q.events) for q in bad]
assert len(good) == 2 and all(closed), closed
assert len(bad) == 2 and not all(leaky), leaky
print("engine ok, {} modules".format(len(p.modules)))
