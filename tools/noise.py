"""Rewrites that keep the behaviour up to rounding: python3 tools/noise.py DEST  (a copy of /repo with them applied)

Division by multiplication with the reciprocal, squares by products, square roots by powers, sums of three terms
reassociated, comparisons turned round, branches exchanged, local names replaced.  The checks have to stay quiet on it."""
import ast
import builtins
import os
import shutil
import subprocess
import sys


class Noise(ast.NodeTransformer):
    def __init__(self, kinds):
        self.kinds = kinds

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if "div" in self.kinds and isinstance(n.op, ast.Div) and not isinstance(n.left, ast.Constant) and isinstance(n.right, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        if "pow" in self.kinds and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute, ast.BinOp)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if "assoc" in self.kinds and isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Mult(), n.right))
        if "assoc" in self.kinds and isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if "sqrt" in self.kinds and isinstance(n.func, ast.Attribute) and n.func.attr == "sqrt" and len(n.args) == 1:
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        turn = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
        if "turn" in self.kinds and len(n.ops) == 1 and type(n.ops[0]) in turn and not isinstance(n.left, ast.Constant):
            return ast.Compare(n.comparators[0], [turn[type(n.ops[0])]()], [n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if "branch" in self.kinds and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if "names" in self.kinds and not any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(n) if x is not n):
            args = {a.arg for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs]} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
            local = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args - set(dir(builtins))
            if not any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(n)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id in local:
                        x.id = x.id + "_value"
        return n


def main():
    dest, kinds = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "div,pow,assoc,sqrt,turn,branch,names").split(",")
    shutil.rmtree(dest, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", dest], check=True)
    for f in os.listdir(dest + "/pointpats"):
        if f.endswith(".py") and f != "__init__.py":
            p = f"{dest}/pointpats/{f}"
            t = Noise(kinds).visit(ast.parse(open(p).read()))
            open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")


main()
