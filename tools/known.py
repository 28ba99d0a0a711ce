"""Rewrites sa/spec/known_functions.txt from the current /repo (run when the specifications are written, never by a check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program
from sa.table import sig
p = Program(os.environ.get("R"))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa/spec/known_functions.txt"), "w") as f:
    f.write("\n".join(sorted({sig(x) for x in p.all_functions()})) + "\n")
