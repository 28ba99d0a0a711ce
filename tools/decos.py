"""Records the decorators of every function of the package (sa/spec/decorators.txt)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program
from sa.table import deco_keys
p = Program(os.environ.get("R"))
out = [f"{fd.qual}: " + " ; ".join(k) for fd in p.all_functions() if (k := deco_keys(fd))]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "spec", "decorators.txt"), "w").write("\n".join(sorted(out)) + "\n")
