"""Starting point of a specification module: gen.py OUT module [module...]  -> sa/spec/OUT.py (every function, stripped) and the
table entries for it.  Methods become functions Class__method.  The result is reviewed and edited by hand."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program, registered_for
from draft import S

p = Program(os.environ.get("R"))
out, mods = sys.argv[1], sys.argv[2:]
skip = {"__repr__", "__str__"}
imports, body, table, have = [], [], [], set()
for mn in mods:
    m = p.modules[mn]
    tops = [n.name for n in m.tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    for n in m.tree.body:
        if isinstance(n, ast.Assign):
            tops += [t.id for t in n.targets if isinstance(t, ast.Name) and t.id != "__all__"]
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            imports.append(ast.unparse(n))
    fns = []
    for n in m.tree.body:
        if isinstance(n, ast.FunctionDef):
            fns.append((registered_for(n) or n.name, n))
        elif isinstance(n, ast.ClassDef):
            fns += [(n.name + "__" + x.name, x) for x in n.body if isinstance(x, ast.FunctionDef) and x.name not in skip and not any("setter" in ast.unparse(d) for d in x.decorator_list)]
    src = []
    for name, n in fns:
        nested = n.name
        # the specification of a module-level function takes a name of its own
        sname = (name if "__" in name and name not in tops else "spec_" + name).replace("@", "_for_")
        assert sname not in have, sname
        have.add(sname)
        f = S().visit(ast.parse(ast.unparse(n)).body[0])
        f.name = sname
        for x in ast.walk(f):
            for b in ("body", "orelse"):
                v = getattr(x, b, None)
                if isinstance(v, list) and len(v) > 1:
                    w = [y for y in v if not isinstance(y, ast.Pass)]
                    setattr(x, b, w or v[:1])
        src.append(ast.unparse(ast.fix_missing_locations(f)))
        q = mn + "." + name.replace("__" + n.name, "." + n.name)
        table.append(f'    E(M + "{q[len(mn)+1:]}", "{sname}"),' if len(mods) == 1 else f'    E("{q}", "{sname}"),')
    used = {x.id for s in src for x in ast.walk(ast.parse(s)) if isinstance(x, ast.Name)}
    names = [t for t in tops if t in used]
    if names:
        imports.append(f"from {mn} import " + ", ".join(names))
    body += src
used = {x.id for s in body for x in ast.walk(ast.parse(s)) if isinstance(x, ast.Name)}
keep = []
for i in dict.fromkeys(imports):
    n = ast.parse(i).body[0]
    n.names = [a for a in n.names if (a.asname or a.name.split(".")[0]) in used]
    if n.names:
        keep.append(ast.unparse(n))
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "spec", out + ".py")
assert not os.path.exists(path) or "--force" in sys.argv, path
open(path, "w").write("\n".join(keep) + "\n\n\n" + "\n\n\n".join(body) + "\n")
print(f'M = "{mods[0]}."')
print("\n".join(table))
