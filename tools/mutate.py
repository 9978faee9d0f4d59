#!/opt/venv/bin/python
"""Mutation testing of the checks: small changes of ctypeslib that its own tests do not notice
are given to the checks; what no check notices is listed for a person to look at.

mutate.py list                         the mutants: index, file, line, what
mutate.py tests OUT [FROM TO STEP]     run the stable tests against them, writes the survivors
mutate.py checks OUT IN [IDS...]       run the checks (a fraction of the cases) against survivors
Everything happens in scratch copies under /tmp."""
import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = ["ctypeslib/clang2py.py", "ctypeslib/library.py", "ctypeslib/codegen/clangparser.py",
         "ctypeslib/codegen/codegenerator.py", "ctypeslib/codegen/config.py", "ctypeslib/codegen/cursorhandler.py",
         "ctypeslib/codegen/handler.py", "ctypeslib/codegen/typedesc.py", "ctypeslib/codegen/typehandler.py",
         "ctypeslib/codegen/util.py", "ctypeslib/codegen/preprocess.py"] + [
         "ctypeslib/data/%s.tpl" % x for x in ("fundamental_type_name", "headers", "pointer_type", "string_cast", "structure_type")]
warnings.simplefilter("ignore")
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//"}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l.encode()) + 1)
        self.b = src.encode()
        self.out = []

    def span(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        self.out.append((n.lineno, a, b, new, what))

    def islog(self, n):
        t = self.text(n)
        return t.startswith(("log.", "print(\"#", "assert ", "raise NotImpl", "import code", "code.interact", "logging."))

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.add(n, "(%s %s %s)" % (l, CMP[type(n.ops[0])], r), "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(%s)" % op.join("(%s)" % self.text(v) for v in n.values), "boolop")
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(%s)" % o.join("(%s)" % self.text(v) for v in rest), "drop operand %d" % i)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, "(%s)" % self.text(n.operand), "not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            self.add(n, "(%s %s %s)" % (self.text(n.left), BIN[type(n.op)], self.text(n.right)), "binop")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.add(n, str(not n.value), "bool")
        elif type(n.value) is int:
            self.add(n, "(%d)" % (n.value + 1), "int+1")

    def visit_If(self, n):
        if not isinstance(n.test, (ast.Compare, ast.BoolOp)) and not (isinstance(n.test, ast.UnaryOp)):
            self.add(n.test, "(not (%s))" % self.text(n.test), "negate if")
        self.add(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "(%s)" % self.text(n.body), "ifexp body")
        self.add(n, "(%s)" % self.text(n.orelse), "ifexp else")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or self.islog(n):
            return
        self.add(n, "pass", "delete: " + self.text(n)[:60].replace("\n", " "))
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if not isinstance(t, ast.Name):
            self.add(n, "pass", "delete: " + self.text(n)[:60].replace("\n", " "))
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete: " + self.text(n)[:60].replace("\n", " "))
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.add(n, "return None", "return None")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "pass", "no continue")

    def visit_Break(self, n):
        self.add(n, "pass", "no break")

    def seq(self, n):
        if isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1 and len(n.elts) < 12:
            for i in range(len(n.elts)):
                rest = [self.text(v) for j, v in enumerate(n.elts) if j != i]
                o, c = ("[", "]") if isinstance(n, ast.List) else ("(", ",)")
                self.add(n, o + ", ".join(rest) + c, "drop element %s" % self.text(n.elts[i])[:30])
        self.generic_visit(n)

    visit_List = seq

    def visit_Tuple(self, n):
        if all(isinstance(e, (ast.Constant, ast.Attribute)) for e in n.elts):
            self.seq(n)
        else:
            self.generic_visit(n)

    def visit_Call(self, n):
        if self.text(n.func).startswith(("log.", "logging.")):
            return
        self.generic_visit(n)

    def visit_Assert(self, n):
        pass

    def visit_Raise(self, n):
        pass


def mutants(repo):
    out = []
    for f in FILES:
        p = os.path.join(repo, f)
        if not os.path.exists(p):
            continue
        src = open(p, encoding="utf-8").read()
        v = Finder(src)
        v.visit(ast.parse(src))
        for line, a, b, new, what in v.out:
            text = (v.b[:a] + new.encode() + v.b[b:]).decode()
            try:
                compile(text, f, "exec")
            except SyntaxError:
                continue
            out.append(dict(file=f, line=line, a=a, b=b, new=new, what=what, old=v.b[a:b].decode()[:120],
                            code=v.lines[line - 1].strip()[:120]))
    for i, m in enumerate(out):
        m["id"] = i
    return out


def repo_copy(src="/repo"):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", src, r], check=True)
    return d, r


_r = None


def apply(r, m):
    p = os.path.join(r, m["file"])
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
    return p, b


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))["stable"]


def one_test(m):
    global _r
    if _r is None:
        _r = repo_copy(SRC)
    d, r = _r
    p, orig = apply(r, m)
    x = os.path.join(d, "j.xml")
    if os.path.exists(x):
        os.unlink(x)
    try:
        # the fast files first; a failure in a stable test kills
        q = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"] + DESELECT + ["test"], cwd=r,
                           capture_output=True, text=True, timeout=240,
                           env=dict(os.environ, PYTHONPATH=r, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                                    LD_LIBRARY_PATH=r + "/test/data", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"))
        ok = q.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    finally:
        open(p, "wb").write(orig)
        subprocess.run(["git", "-C", r, "status", "--short"], capture_output=True)
    return m, ok


def one_check(args):
    global _r
    m, ids, scale = args
    if _r is None:
        _r = repo_copy(SRC)
    d, r = _r
    p, orig = apply(r, m)
    killed = None
    try:
        for pid in ids:
            ev = os.path.join(d, "evidence")
            try:
                q = subprocess.run([PY, "run.py", pid], cwd=COPY, capture_output=True, text=True, timeout=400,
                                   env=dict(os.environ, VERIF_REPO=r, VERIF_SHARDS="1", VERIF_SCALE=str(scale), VERIF_SEED="1",
                                            VERIF_TIER="quick"))
            except subprocess.TimeoutExpired:
                killed = pid + " (no answer)"
                break
            if q.returncode != 0:
                killed = pid if q.returncode == 1 else "%s (rc %d)" % (pid, q.returncode)
                break
    finally:
        open(p, "wb").write(orig)
    return m, killed


def main():
    global SRC, DESELECT, COPY
    SRC = os.environ.get("MUT_SRC", "/repo")
    cmd = sys.argv[1]
    ms = mutants(SRC)
    if cmd == "list":
        for m in ms:
            print(m["id"], m["file"], m["line"], m["what"], "|", m["code"])
        return
    workers = int(os.environ.get("MUT_WORKERS", "8"))
    if cmd == "tests":
        out = sys.argv[2]
        sel = ms[int(sys.argv[3]):int(sys.argv[4]):int(sys.argv[5])] if len(sys.argv) > 3 else ms
        # deselect what is not reliable on the unchanged tree
        q = subprocess.run([PY, "-m", "pytest", "-q", "--collect-only", "test"], cwd=SRC, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=SRC, LD_LIBRARY_PATH=SRC + "/test/data"))
        names = set(x.split("::", 1)[-1].replace("::", ".") for x in stable())
        DESELECT = []
        known = set(stable())
        for l in q.stdout.split("\n"):
            if "::" in l:
                parts = l.strip().split("::")
                key = parts[0].replace("/", ".")[:-3] + "." + ".".join(parts[1:-1]) + "::" + parts[-1]
                if not any(k.endswith(".".join(parts[1:-1]) + "::" + parts[-1]) or k == l.strip() or k == key for k in known):
                    DESELECT += ["--deselect", l.strip()]
        print("deselected", len(DESELECT) // 2, "mutants", len(sel), flush=True)
        with multiprocessing.Pool(workers) as pool, open(out, "a") as f:
            for m, ok in pool.imap_unordered(one_test, sel):
                m["survives"] = ok
                f.write(json.dumps(m) + "\n")
                f.flush()
    elif cmd == "checks":
        out, inp, ids = sys.argv[2], sys.argv[3], sys.argv[4:]
        ids = ids or ["C%02d" % i for i in range(1, 21)]
        done = set()
        if os.path.exists(out):
            done = set(json.loads(l)["id"] for l in open(out))
        sel = [json.loads(l) for l in open(inp)]
        sel = [m for m in sel if m.get("survives", True) and not m.get("killed") and m["id"] not in done]
        # the checks write evidence and replays: from a copy
        t = tempfile.mkdtemp(prefix="mutv-", dir="/tmp")
        COPY = os.path.join(t, "verif")
        shutil.copytree(VERIF, COPY, ignore=shutil.ignore_patterns(".git", "seeded", "replay"))
        scale = float(os.environ.get("MUT_SCALE", "0.1"))
        with multiprocessing.Pool(workers) as pool, open(out, "a") as f:
            for m, killed in pool.imap_unordered(one_check, [(m, ids, scale) for m in sel]):
                m["killed"] = killed
                f.write(json.dumps(m) + "\n")
                f.flush()
        shutil.rmtree(t)


if __name__ == "__main__":
    main()
