"""Writes vlib/baseline.txt: the functions that the checks know by name.

A function that is not listed was added later: it is analysed as a part of the
functions that call it instead of being treated as an operation of its own.
"""
import ast
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib.project import Project


def walk(node, prefix, out):
    for child in ast.iter_child_nodes(node):
        if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            name = prefix + "." + child.name
            if not isinstance(child, ast.ClassDef):
                out.add(name)
            walk(child, name, out)
        else:
            walk(child, prefix, out)


if __name__ == "__main__":
    names = set()
    for name, m in Project().modules.items():
        walk(m.tree, name, names)
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "vlib", "baseline.txt"), "w") as f:
        f.write("\n".join(sorted(names)) + "\n")
    print(len(names))
