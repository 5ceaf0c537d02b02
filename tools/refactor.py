"""refactor.py SRC DST KIND...: copies the package SRC/pyembroidery to DST/pyembroidery with every module rewritten so that it
behaves the same but is written differently: locals renamed, branches swapped, loops turned, helpers extracted. The checks have to stay quiet on the result."""
import ast
import os
import shutil
import sys


class Locals(ast.NodeTransformer):
    """a = 1 -> a_r = 1 for every local that is no parameter"""

    def visit_FunctionDef(self, node):
        inner = [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not node]
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        if inner or names & {"locals", "exec", "eval", "globals"} or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(node)):
            self.generic_visit(node)
            return node
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]}
        stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        imported = {(a.asname or a.name).split(".")[0] for n in ast.walk(node) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        handlers = {n.name for n in ast.walk(node) if isinstance(n, ast.ExceptHandler) and n.name}
        mine = stored - args - imported - handlers
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in mine:
                n.id += "_r"
        return node


class Branches(ast.NodeTransformer):
    """if a: x else: y -> if not a: y else: x"""

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node


class Loops(ast.NodeTransformer):
    n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        Loops.n += 1
        it = "it_%d" % Loops.n
        first = ast.parse("%s = iter(None)" % it).body[0]
        first.value.args = [node.iter]
        loop = ast.parse("while True:\n    try:\n        x = next(%s)\n    except StopIteration:\n        break\n" % it).body[0]
        loop.body[0].body[0].targets = [node.target]
        loop.body += node.body
        return [first, loop]


class Returns(ast.NodeTransformer):
    def visit_Return(self, node):
        if node.value is None:
            return node
        return [ast.Assign([ast.Name("result_", ast.Store())], node.value, lineno=0), ast.Return(ast.Name("result_", ast.Load()))]

    def visit_Lambda(self, node):
        return node


class Helpers:
    """def f(a, b): body -> def f(a, b): return _f_impl(a, b), for functions and plain methods"""

    @staticmethod
    def split(body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = Helpers.split(s.body, s.name)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not (s.name.startswith("__") and cls) and not (s.args.vararg or s.args.kwarg or s.args.kwonlyargs):
                names = [a.arg for a in s.args.args]
                impl = "_%s_impl" % s.name
                uses_super = any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(s))
                if not uses_super and not (cls and not names):
                    new = ast.FunctionDef(impl, ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), s.body, [], lineno=0)
                    f = ast.Attribute(ast.Name(names[0], ast.Load()), impl, ast.Load()) if cls else ast.Name(impl, ast.Load())
                    call = ast.Call(f, [ast.Name(n, ast.Load()) for n in names[1 if cls else 0:]], [])
                    s.body = [ast.Return(call)]
                    out.append(new)
            out.append(s)
        return out


def rewrite(text, kinds):
    tree = ast.parse(text)
    if "locals" in kinds:
        tree = Locals().visit(tree)
    if "branches" in kinds:
        tree = Branches().visit(tree)
    if "returns" in kinds:
        tree = Returns().visit(tree)
    if "loops" in kinds:
        tree = Loops().visit(tree)
    if "helpers" in kinds:
        tree.body = Helpers.split(tree.body, None)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + "\n"


if __name__ == "__main__":
    src, dst, kinds = sys.argv[1], sys.argv[2], sys.argv[3:]
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(".git"), dirs_exist_ok=True)
    p = os.path.join(dst, "pyembroidery")
    for f in sorted(os.listdir(p)):
        if f.endswith(".py"):
            with open(os.path.join(p, f), encoding="utf8", newline="") as h:
                t = h.read().replace("\r\n", "\n")
            with open(os.path.join(p, f), "w", encoding="utf8") as h:
                h.write(rewrite(t, kinds))
