"""python3 check.py <PROPERTY> [quick|thorough]: decide one property"""
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib.check import main   # noqa

if __name__ == "__main__":
    prop = sys.argv[1]
    module = importlib.import_module("checks." + prop.lower())
    sys.exit(main(prop, module))
