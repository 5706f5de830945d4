"""Systematic small changes of the analysed code: which of those that the tests accept do the checks report?

    python3 tools/mutate.py OUT.jsonl [--n N] [--seed S] [--file substring]

Development tool (nothing registered uses it).  Every mutant is one syntactic change in a scratch copy.
"""
import ast, copy, json, os, pathlib, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/pyrayt/mplconfig", PYTHONWARNINGS="ignore")
FILES = [str(p.relative_to(REPO)) for d in ("pyrayt", "tinygfx") for p in sorted((REPO / d).rglob("*.py"))]


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.fn, self.out = [], []

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        for d in n.args.defaults:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.fn.pop()

    def visit_Raise(self, n):
        pass

    def generic_visit(self, n):
        for m in mutations(n):
            self.out.append((n, ".".join(self.fn), m))
        super().generic_visit(n)


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.MatMult: [ast.Mult]}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any", "sin": "cos", "cos": "sin", "logical_and": "logical_or", "logical_or": "logical_and", "minimum": "maximum",
         "maximum": "minimum", "ones": "zeros", "zeros": "ones", "isfinite": "isinf", "vstack": "hstack", "floor": "ceil", "arccos": "arcsin", "invert_normals": "reset_normals", "nanmin": "nanmax"}


def mutations(n):
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
        for c in CMP[type(n.ops[0])]:
            yield ("cmp", c)
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        for c in BIN[type(n.op)]:
            yield ("bin", c)
        if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
            yield ("swap",)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
        yield ("drop-unary",)
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        yield ("const", n.value + 1)
        if n.value not in (0, 1):
            yield ("const", 0)
            yield ("const", n.value * 1.01)
        if n.value == 1:
            yield ("const", -1)
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        yield ("const", not n.value)
    if isinstance(n, ast.BoolOp):
        yield ("boolop",)
        yield ("bool-first",)
        yield ("bool-last",)
    if isinstance(n, (ast.If, ast.IfExp)):
        yield ("neg-if",)
        yield ("true-if",)
        yield ("false-if",)
    if isinstance(n, ast.Attribute) and n.attr in NAMES:
        yield ("name", NAMES[n.attr])
    if isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            yield ("swap-args",)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "flatten", "ravel"):
            yield ("drop-method",)
        if len(n.args) == 1 and not n.keywords:
            yield ("drop-call",)
        for i in range(len(n.keywords)):
            yield ("drop-kw", i)
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        yield ("drop-stmt",)
    if isinstance(n, ast.AugAssign):
        yield ("aug-to-assign",)
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        yield ("drop-slice",)
        if n.slice.upper is not None:
            yield ("drop-upper",)
    if isinstance(n, ast.For):
        yield ("skip-first",)
    if isinstance(n, ast.Return) and n.value is not None:
        yield ("return-none",)


def apply(n, m):
    """mutates node n in place (n belongs to a private tree); may return a replacement"""
    k = m[0]
    if k == "cmp": n.ops[0] = m[1]()
    elif k == "bin": n.op = m[1]()
    elif k == "swap": n.left, n.right = n.right, n.left
    elif k == "drop-unary": return n.operand
    elif k == "const": n.value = m[1]
    elif k == "boolop": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "bool-first": return n.values[0]
    elif k == "bool-last": return n.values[-1]
    elif k == "neg-if": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == "true-if": n.test = ast.Constant(True)
    elif k == "false-if": n.test = ast.Constant(False)
    elif k == "name": n.attr = m[1]
    elif k == "swap-args": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "drop-method": return n.func.value
    elif k == "drop-call": return n.args[0]
    elif k == "drop-kw": del n.keywords[m[1]]
    elif k == "drop-stmt": return ast.Pass()
    elif k == "aug-to-assign":
        return ast.Assign([n.target], n.value)
    elif k == "drop-slice": return n.value
    elif k == "drop-upper": n.slice.upper = None
    elif k == "skip-first":
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1), None, None), ast.Load())
    elif k == "return-none": n.value = ast.Constant(None)
    return n


class Repl(ast.NodeTransformer):
    def __init__(self, target, m):
        self.t, self.m = target, m

    def visit(self, n):
        if n is self.t:
            return apply(n, self.m)
        return self.generic_visit(n)


def mutant(path, i):
    tree = ast.parse((REPO / path).read_text())
    v = Sites()
    v.visit(tree)
    n, fn, m = v.out[i]
    line = getattr(n, "lineno", 0)
    before = ast.unparse(n)[:90]
    new = Repl(n, m).visit(tree)
    ast.fix_missing_locations(new)
    return ast.unparse(new) + "\n", fn, line, before, [str(getattr(x, "__name__", x)) for x in m]


def sh(cmd, cwd, timeout, **env):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def main():
    out = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    N, seed, sub = int(opt.get("--n", 100)), int(opt.get("--seed", 1)), opt.get("--file", "")
    only = opt.get("--fn", "")
    allm = []
    for f in FILES:
        if sub and sub not in f:
            continue
        v = Sites()
        v.visit(ast.parse((REPO / f).read_text()))
        allm += [(f, i) for i, x in enumerate(v.out) if not only or only in x[1]]
    print(len(allm), "mutants in all")
    random.Random(seed).shuffle(allm)
    allm = allm[:N]
    ev = {}
    for p in sorted(pathlib.Path(opt.get("--ev", "/tmp/ev1")).glob("C*.json")):
        d = json.loads(p.read_text())
        ev[d["property"]] = (d["wall_s"], set(d["coverage"].get("functions_analysed", [])))

    def one(job):
        f, i = job
        try:
            src, fn, line, before, m = mutant(f, i)
        except Exception as e:
            return None
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="mut_"))
        try:
            repo = tmp / "repo"
            subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
            (repo / f).write_text(src)
            rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "python_files=test_*.py int_test_*.py", "test"], repo, 60)
            rec = {"file": f, "i": i, "fn": fn, "line": line, "m": m, "before": before}
            if rc:
                rec["status"] = "tests"
                return rec
            order = sorted(ev, key=lambda p: (f"{f}:{fn}" not in ev[p][1], p == "C27", ev[p][0]))
            caught, err = [], []
            for p in order:
                rc, o = sh(["python3-vt", "-m", "sa.run", p, "--repo", str(repo)], HERE, 900, VERIF_EVIDENCE=str(tmp / "ev"))
                if rc == 1:
                    caught.append(p)
                    break
                if rc != 0:
                    err.append(p)
            rec["status"] = "caught" if caught else "error" if err else "missed"
            rec["by"], rec["err"] = caught, err
            return rec
        finally:
            shutil.rmtree(tmp)
    cnt = {}
    with ThreadPoolExecutor(4) as ex, open(out, "a") as fo:
        for r in ex.map(one, allm):
            if r is None:
                continue
            cnt[r["status"]] = cnt.get(r["status"], 0) + 1
            fo.write(json.dumps(r) + "\n")
            fo.flush()
            if r["status"] in ("missed", "error"):
                print(r["status"], r["file"], r["line"], r["fn"], r["m"], r["before"], r["err"], flush=True)
    print(cnt)


main()
