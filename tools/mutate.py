"""Mutation testing of the checks: every small change to the package (one per mutant) that the
repository's tests do not notice is run against a thin slice of all checks (tools/fast.py).

usage: mutate.py OUT.jsonl [FILE-PREFIX...]     results are appended; done mutants are skipped
       mutate.py --count
"""
import ast, json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
REPO = Path(os.environ.get("MUT_REPO", "/repo"))


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.encode().split(b"\n")
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l) + 1)
        self.out = []
        self.parents = []

    def span(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def sub(self, n, new, what):
        a, b = self.span(n)
        old = self.text(n)
        if old != new:
            self.out.append((a, b, new, what, n.lineno, old))

    def visit(self, n):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)) and isinstance(n, ast.Raise):
            return self.m_Raise(n)
        if not self.parents[1:] and isinstance(n, ast.Assign):
            return  # type declarations
        if isinstance(n, ast.ClassDef) and any("TypedDict" in ast.dump(b) for b in n.bases):
            return
        m = getattr(self, "m_" + type(n).__name__, None)
        if m:
            m(n)
        self.parents.append(n)
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            if isinstance(v, list):
                for i in v:
                    if isinstance(i, ast.AST):
                        self.visit(i)
            elif isinstance(v, ast.AST):
                self.visit(v)
        self.parents.pop()

    def m_Constant(self, n):
        p = self.parents[-1]
        if isinstance(p, ast.Expr) or isinstance(p, ast.JoinedStr):
            return
        v = n.value
        if isinstance(v, bool):
            self.sub(n, str(not v), "flip")
        elif isinstance(v, str):
            self.sub(n, repr(v + "_x") if v else repr("x"), "string")
        elif isinstance(v, (int, float)):
            self.sub(n, repr(v + 1), "const+1")
            if v not in (0, 1):
                self.sub(n, repr(v - 1), "const-1")
        elif v is None:
            self.sub(n, "0", "none->0")

    OPS = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
           ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}

    def m_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.sub(n, f"({l} {self.OPS[type(n.ops[0])]} {r})", "cmp")
            none = isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None
            if none and isinstance(n.ops[0], ast.IsNot):
                self.sub(n, f"bool({l})", "truthy")
            if none and isinstance(n.ops[0], ast.Is):
                self.sub(n, f"(not {l})", "truthy")
            if isinstance(n.ops[0], ast.In) and isinstance(n.left, ast.Constant):
                self.sub(n, f"bool({r}.get({l}))", "truthy-in")

    BO = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.BitOr: "&", ast.BitAnd: "|",
          ast.LShift: ">>", ast.RShift: "<<", ast.BitXor: "|"}

    def m_BinOp(self, n):
        if type(n.op) in self.BO:
            l, r = self.text(n.left), self.text(n.right)
            self.sub(n, f"({l} {self.BO[type(n.op)]} {r})", "binop")
            self.sub(n, f"({l})", "left")
            self.sub(n, f"({r})", "right")
            if isinstance(n.op, ast.Div):
                self.sub(n, f"({l} // {r})", "intdiv")

    def m_BoolOp(self, n):
        ts = [self.text(v) for v in n.values]
        op, no = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        self.sub(n, "(" + f" {no} ".join(ts) + ")", "bool")
        for i in range(len(ts)):
            self.sub(n, "(" + f" {op} ".join(ts[:i] + ts[i + 1:]) + ")", "drop-operand")

    def m_UnaryOp(self, n):
        self.sub(n, "(" + self.text(n.operand) + ")", "unary")

    def m_If(self, n):
        self.sub(n.test, "True", "if-true")
        self.sub(n.test, "False", "if-false")
        self.delete(n)

    def m_While(self, n):
        self.sub(n.test, "False", "while-false")

    def m_IfExp(self, n):
        self.sub(n, "(" + self.text(n.body) + ")", "ifexp-body")
        self.sub(n, "(" + self.text(n.orelse) + ")", "ifexp-else")

    def delete(self, n):
        if isinstance(n, ast.If) and self.parents and isinstance(self.parents[-1], ast.If) and n in self.parents[-1].orelse and self.text(n).startswith("elif"):
            return
        self.sub(n, "pass", "delete")

    def m_Expr(self, n):
        if not (isinstance(n.value, ast.Constant)):
            self.delete(n)

    def m_Assign(self, n):
        if any(isinstance(p, ast.FunctionDef) for p in self.parents):
            self.delete(n)
        self.sub(n.value, "None", "assign-none")

    def m_AugAssign(self, n):
        self.delete(n)

    def m_AnnAssign(self, n):
        if n.value is not None and any(isinstance(p, ast.FunctionDef) for p in self.parents):
            self.sub(n.value, "None", "assign-none")

    def m_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.sub(n.value, "None", "return-none")

    def m_Raise(self, n):
        self.sub(n, "pass", "raise-pass")

    def m_Continue(self, n):
        self.sub(n, "break", "continue-break")
        self.sub(n, "pass", "continue-pass")

    def m_Break(self, n):
        self.sub(n, "pass", "break-pass")

    def m_For(self, n):
        it = self.text(n.iter)
        self.sub(n.iter, f"list({it})[1:]", "skip-first")
        self.sub(n.iter, f"list({it})[:-1]", "skip-last")
        self.sub(n.iter, f"reversed(list({it}))", "reversed")
        self.sub(n.iter, f"list({it})[:2]", "first-two")

    def m_comprehension(self, n):
        it = self.text(n.iter)
        self.sub(n.iter, f"list({it})[:-1]", "skip-last")
        for i in n.ifs:
            self.sub(i, "True", "if-true")

    def m_ExceptHandler(self, n):
        if n.type is not None:
            self.sub(n.type, "ZeroDivisionError", "except-none")
            if self.text(n.type) != "Exception":
                self.sub(n.type, "Exception", "except-all")

    def m_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.sub(n, self.text(n.value), "unslice")

    def m_Call(self, n):
        f = self.text(n.func)
        pos = [self.text(a) for a in n.args]
        kw = [(k.arg, self.text(k.value)) for k in n.keywords]

        def mk(fn, p, k):
            return fn + "(" + ", ".join(p + [f"{a}={v}" if a else f"**{v}" for a, v in k]) + ")"
        if len(pos) == 1 and not kw and f not in ("print", "isinstance"):
            self.sub(n, "(" + pos[0] + ")", "unwrap")
        if isinstance(n.func, ast.Attribute):
            self.sub(n, "(" + self.text(n.func.value) + ")", "unmethod")
        if f == "int":
            self.sub(n, mk("float", pos, kw), "int-float")
        if f == "float":
            self.sub(n, mk("int", pos, kw), "float-int")
        if f == "float":
            self.sub(n, "round(" + mk("float", pos, kw) + ", 2)", "round")
        if f.endswith(".findall"):
            self.sub(n, "list(" + f[:-8] + ".iter(" + ", ".join(x.replace("./", "") for x in pos) + "))", "iter")
        for i in range(len(kw)):
            self.sub(n, mk(f, pos, kw[:i] + kw[i + 1:]), "drop-kw")
        if len(pos) >= 2:
            self.sub(n, mk(f, pos[:-1], kw), "drop-arg")
        for i in range(len(pos) - 1):
            p = list(pos)
            p[i], p[i + 1] = p[i + 1], p[i]
            self.sub(n, mk(f, p, kw), "swap-args")

    def m_FunctionDef(self, n):
        if n.args.defaults:
            pass


def mutants():
    for f in sorted(subprocess.run(["git", "ls-files", "pytiled_parser"], cwd=REPO, capture_output=True, text=True).stdout.split()):
        if not f.endswith(".py"):
            continue
        raw = (REPO / f).open(newline="").read()
        crlf = "\r\n" in raw
        src = raw.replace("\r\n", "\n")
        g = Gen(src)
        g.visit(ast.parse(src))
        seen = set()
        for a, b, new, what, line, old in g.out:
            s = src.encode()
            t = (s[:a] + new.encode() + s[b:]).decode()
            if t in seen:
                continue
            seen.add(t)
            try:
                import warnings; warnings.simplefilter("ignore"); compile(t, f, "exec")
            except SyntaxError:
                continue
            yield f, line, what, old, new, (t.replace("\n", "\r\n") if crlf else t)


def main():
    out = sys.argv[1]
    pre = sys.argv[2:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["f"], r["line"], r["what"], r["old"], r["new"]))
    todo = [m for m in mutants() if m[:5] not in done and (not pre or any(m[0].startswith("pytiled_parser/" + p) for p in pre))]
    print(len(todo), "mutants", flush=True)
    local = threading.local()
    base = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    lock = threading.Lock()
    fh = open(out, "a")
    n = {}

    def go(m):
        f, line, what, old, new, t = m
        if not hasattr(local, "d"):
            local.d = tempfile.mkdtemp(dir=base)
            shutil.copytree(REPO, local.d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        r = local.d + "/r"
        p = r + "/" + f
        raw = open(p, newline="").read()
        open(p, "w", newline="").write(t)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MC_REPO=r, PYTHONPATH=r)
        try:
            try:
                c = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-header"], cwd=r, env=e, capture_output=True, timeout=60)
                rc = c.returncode
            except subprocess.TimeoutExpired:
                rc = -1
            if rc != 0:
                res = "TESTS"
            else:
                try:
                    c = subprocess.run([PY, str(V / "tools/fast.py"), "25"], cwd=V, env=e, capture_output=True, timeout=600)
                    res = c.stdout.decode("utf-8", "replace").strip().split("\n")[-1] or ("ERR " + c.stderr.decode("utf-8", "replace")[-400:])
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT"
        finally:
            open(p, "w", newline="").write(raw)
        with lock:
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            fh.write(json.dumps({"f": f, "line": line, "what": what, "old": old, "new": new, "res": res}) + "\n")
            fh.flush()
            if sum(n.values()) % 100 == 0:
                print(n, flush=True)
    try:
        with ThreadPoolExecutor(int(os.environ.get("MUT_J", "6"))) as ex:
            list(ex.map(go, todo))
    finally:
        shutil.rmtree(base)
    print(n)


if __name__ == "__main__":
    if sys.argv[1] == "--count":
        print(len(list(mutants())))
    else:
        main()
