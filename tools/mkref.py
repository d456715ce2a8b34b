"""(maintenance only) write the documentation-free reference package from a source tree"""
import ast, os, sys
src, dst = sys.argv[1:3]
for d, _, fs in os.walk(src):
    for f in fs:
        if not f.endswith(".py"):
            continue
        p = os.path.join(d, f)
        t = ast.parse(open(p).read())
        for n in ast.walk(t):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                    and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                n.body = n.body[1:] or [ast.Pass()]
        q = os.path.join(dst, os.path.relpath(p, src))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "w").write(ast.unparse(t) + "\n")
