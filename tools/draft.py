"""Prints a stripped copy of package functions as a starting point for a specification: draft.py module.func ..."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program
p = Program()
class S(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        n.decorator_list = []
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
        return n
    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call):
            n.exc.args, n.exc.keywords = [], []
        return n
    def visit_Expr(self, n):
        s = ast.unparse(n)
        if s.startswith(("_log.", "warnings.warn", "_logger.", "log.")) and "--log" not in sys.argv:
            return ast.Pass()
        return n
for q in sys.argv[1:] if __name__ == "__main__" else ():
    if q.startswith("--"): continue
    print(ast.unparse(ast.fix_missing_locations(S().visit(p.func(q).node))), "\n\n")
