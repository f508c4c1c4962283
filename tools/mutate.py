"""Systematic one-place mutations of a source file, run against the checks that anchor there, to find what no check sees.

  mutate.py FILE CHECK [CHECK ...]   prints one line per surviving mutant (tests are not run; survivors are read by hand)
"""
import ast
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.Mod: "*", ast.Pow: "*"}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.starts = [0]
        for line in src.split("\n"):
            self.starts.append(self.starts[-1] + len(line.encode()) + 1)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def put(self, n, new):
        a, b = self.span(n)
        self.out.append((a, b, new, n.lineno))

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + n.args.kw_defaults:
            d is not None and self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Assign(self, n):
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        op = BIN.get(type(n.op))
        self.put(n, "pass")
        self.visit(n.value)
        self.visit(n.target)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and self.text(n.value.func) == "print":
            return
        self.put(n, "pass")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.put(n, "pass")

    def visit_Break(self, n):
        self.put(n, "pass")

    def visit_Raise(self, n):
        self.put(n, "pass")

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            for op in CMP.get(type(n.ops[0]), []):
                self.put(n, f"({l} {op} {r})")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN:
            self.put(n, f"({self.text(n.left)} {BIN[type(n.op)]} {self.text(n.right)})")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + op.join("(" + self.text(v) + ")" for v in n.values) + ")")
        for v in n.values:
            self.put(n, self.text(v))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, self.text(n.operand))
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, "True")
        self.put(n.test, "False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, "(" + self.text(n.body) + ")")
        self.put(n, "(" + self.text(n.orelse) + ")")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value))
        elif isinstance(n.value, int):
            self.put(n, f"({n.value + 1})")
            self.put(n, f"({n.value - 1})")
        elif isinstance(n.value, float):
            self.put(n, repr(n.value * 1.5))

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "flatten", "any", "all") and not n.args:
            self.put(n, self.text(n.func.value))
        if self.text(n.func) in ("max", "min", "np.max", "np.min", "np.maximum", "np.minimum"):
            t = self.text(n.func)
            self.put(n.func, t.replace("max", "min") if "max" in t else t.replace("min", "max"))
        if self.text(n.func) in ("np.clip", "np.abs", "abs") and n.args:
            self.put(n, self.text(n.args[0]))
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.visit(n.value)
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            for part, name in ((s.lower, "lower"), (s.upper, "upper")):
                if part is not None and not isinstance(part, ast.Constant):
                    self.put(part, f"({self.text(part)} + 1)")
            self.generic_visit(s)
        else:
            self.visit(n.slice)


def main():
    path, checks = sys.argv[1], sys.argv[2:]
    src = open(os.path.join("/repo", path)).read()
    g = Gen(src)
    g.visit(ast.parse(src))
    mutants = sorted(set(g.out))
    lines = os.environ.get("LINES")
    if lines:
        a, b = map(int, lines.split("-"))
        mutants = [m for m in mutants if a <= m[3] <= b]
    work = f"/tmp/mutwork/{os.getpid()}"
    shutil.copytree("/repo", work, symlinks=True, ignore=shutil.ignore_patterns(".git", "runs", "analysis"))
    data, n_caught, surv = src.encode(), 0, 0
    try:
        for a, b, new, line in mutants:
            mut = data[:a] + new.encode() + data[b:]
            try:
                ast.parse(mut)
            except SyntaxError:
                continue
            open(os.path.join(work, path), "wb").write(mut)
            by = None
            for c in checks:
                env = dict(os.environ, VERIF_REPO=work, VERIF_OUT=work + ".out", VERIF_TIER="quick", VERIF_FAIL_FAST="1", VERIF_JOB_TIMEOUT="120")
                r = subprocess.run([PY, "check.py", c], cwd=VERIF, env=env, capture_output=True, text=True)
                if r.returncode == 1:
                    by = c
                    break
                if r.returncode != 0:
                    print(f"?? {path}:{line} {c} exit {r.returncode} {r.stderr[-200:]}", flush=True)
            if by:
                n_caught += 1
            else:
                surv += 1
                print(f"SURVIVES {path}:{line}: `{data[a:b].decode()[:90]}` -> `{new[:90]}`", flush=True)
        print(f"DONE {path}: {n_caught} caught, {surv} survive", flush=True)
    finally:
        shutil.rmtree(work)
        shutil.rmtree(work + ".out", ignore_errors=True)


if __name__ == "__main__":
    main()
