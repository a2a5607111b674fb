"""mutate.py OUT N SEED [FILE ...] : random syntactic changes to the library that
survive its stable tests, against the checks of the files they touch.  Each
mutant lives in a scratch copy of /repo that is removed afterwards."""
import ast, json, os, random, shutil, subprocess, sys, threading, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, argv = sys.argv[:1], sys.argv
sys.path.insert(0, os.path.join(HERE, "tools"))
PY = "/opt/venv/bin/python"
I = "inflation/"
CHECKS = {
    I + "InflationProblem.py": "C19 C17 C06 C08 C07 C05 C18 C02 C01 C09 C03",
    I + "optimization_utils.py": "C16",
    I + "utils.py": "C17 C06 C16 C12 C14 C02 C11 C22",
    I + "lp/InflationLP.py": "C02 C22 C08 C20 C11 C01 C09 C21 C14 C06 C18 C15 C16",
    I + "lp/lp_utils.py": "C12 C14 C22 C16",
    I + "lp/monomial_classes.py": "C09 C08 C20 C14 C22 C01",
    I + "lp/numbafied.py": "C08 C02 C01 C09 C10",
    I + "lp/writer_utils.py": "C15",
    I + "sdp/InflationSDP.py": "C03 C22 C08 C20 C11 C04 C09 C10 C21 C14 C06 C18 C15 C16",
    I + "sdp/fast_npa.py": "C05 C07 C04 C10 C03 C08",
    I + "sdp/monomial_classes.py": "C09 C08 C03 C04",
    I + "sdp/monomial_utils.py": "C09 C08 C15",
    I + "sdp/quantum_tools.py": "C21 C04 C06 C10 C03 C05",
    I + "sdp/sdp_utils.py": "C13 C14 C22",
    I + "sdp/writer_utils.py": "C15",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SWAP = {"any": "all", "all": "any", "min": "max", "max": "min", "union": "intersection",
        "logical_and": "logical_or", "logical_or": "logical_and", "intersection": "union",
        "union1d": "intersect1d", "minimum": "maximum", "maximum": "minimum", "permutations": "combinations",
        "difference": "intersection", "setdiff1d": "intersect1d", "append": "extend", "vstack": "hstack",
        "argmin": "argmax", "zeros": "ones", "ones": "zeros", "update": "copy"}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l))

    def pos(self, n):
        return (self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.pos(n)
        return self.src[a:b]

    def put(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, n.lineno, ".".join(self.fn)))

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "printf") or "deprecat" in n.name:
            return
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_Assert(self, n): pass
    def visit_Raise(self, n): pass
    def visit_Import(self, n): pass
    def visit_ImportFrom(self, n): pass
    def visit_JoinedStr(self, n): pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if t.startswith(("warn", "print", "collect", "eprint")) or ".set_desc" in t:
            return
        if self.fn:
            self.put(n, "pass", "delete")
        self.generic_visit(n)

    def visit_If(self, n):
        if "verbose" in self.text(n.test):
            return
        if all(isinstance(s, (ast.Raise,)) or (isinstance(s, ast.Expr) and "warn" in self.text(s)) for s in n.body):
            return
        self.put(n.test, "True", "if-true")
        self.put(n.test, "False", "if-false")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.put(n, f"({self.text(n.left)} {CMP[type(n.ops[0])]} {self.text(n.comparators[0])})", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + op.join("(" + self.text(v) + ")" for v in n.values) + ")", "boolop")
        for i in range(len(n.values)):
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.put(n, "(" + o.join("(" + self.text(v) + ")" for j, v in enumerate(n.values) if j != i) + ")", "drop-clause")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, f"({self.text(n.operand)})", "drop-unary")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.BitAnd: "|", ast.BitOr: "&"}.get(type(n.op))
        if sw and not isinstance(n.left, (ast.JoinedStr,)) and "'" not in self.text(n) and '"' not in self.text(n):
            self.put(n, f"({self.text(n.left)} {sw} {self.text(n.right)})", "binop")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value), "bool")
        elif isinstance(n.value, int):
            self.put(n, str({0: 1, 1: 0}.get(n.value, n.value + 1)), "int")
            if n.value == 1:
                self.put(n, "2", "int")

    def visit_Call(self, n):
        t = self.text(n.func)
        if t in ("print", "warn", "tqdm", "eprint", "np.dtype", "perf_counter", "collect"):
            return
        name = t.split(".")[-1]
        if name in SWAP:
            self.put(n.func, t[:len(t) - len(name)] + SWAP[name], "call")
        if t in ("sorted", "deepcopy", "reversed", "list", "copy", "abs", "np.unique", "np.sort", "np.abs", "set") and len(n.args) == 1:
            self.put(n, self.text(n.args[0]), "drop-call")
        if name == "copy" and not n.args and isinstance(n.func, ast.Attribute):
            self.put(n, self.text(n.func.value), "drop-call")
        for k in n.keywords:
            if k.arg and k.arg not in ("disable", "desc", "dtype", "total", "leave", "verbose"):
                a, b = self.pos(k)
                e = b
                while self.src[e] in " \n,":
                    e += 1
                    if self.src[e - 1] == ",":
                        break
                self.out.append((a, e, "", "drop-kw " + k.arg, n.lineno, ".".join(self.fn)))
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.put(c, "True", "drop-filter")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.put(n, "pass", "continue")

    def visit_Break(self, n):
        self.put(n, "pass", "break")

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)


def mutants(f):
    src = open(os.path.join("/repo", f)).read()
    assert src.isascii() or True
    v = V(src)
    v.visit(ast.parse(src))
    res = []
    for a, b, new, kind, line, fn in v.out:
        s = src[:a] + new + src[b:]
        try:
            if ast.dump(ast.parse(s)) != ast.dump(ast.parse(src)):
                res.append((f, line, fn, kind, src[a:b][:80], new[:80], s))
        except SyntaxError:
            pass
    return res


def stable(copy):
    out = os.path.join(copy, "_t")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               PYTHONPATH=copy, NUMBA_CACHE_DIR=os.path.join(copy, "_nc"))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    byfile = {}
    for s in want:
        m, t = s.split("::")
        _, file, cls = m.split(".")
        byfile.setdefault(file, []).append(f"test/{file}.py::{cls}::{t}")
    for file in sorted(byfile, key=lambda x: x == "test_pipeline"):
        p = subprocess.run(["timeout", "300", PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"]
                           + byfile[file], cwd=copy, env=env, capture_output=True, text=True)
        if p.returncode:
            return False
    return True


def main():
    out, n, seed = argv[1], int(argv[2]), int(argv[3])
    files = [f if f.startswith(I) else I + f for f in argv[4:]] or list(CHECKS)
    rng = random.Random(seed)
    pool = []
    for f in files:
        pool += mutants(f)
    rng.shuffle(pool)
    pool = pool[:n]
    print(len(pool), "mutants", flush=True)
    todo, ready = queue.Queue(), queue.Queue(maxsize=6)
    for k, m in enumerate(pool):
        todo.put((k, m))
    scale = os.environ.get("PBT_SCALE", "0.4")
    workers = int(os.environ.get("MUT_TESTERS", "3"))

    def tester():
        while True:
            try:
                k, m = todo.get_nowait()
            except queue.Empty:
                break
            copy = f"/tmp/mut/{os.getpid()}_{k}"
            shutil.rmtree(copy, ignore_errors=True)
            shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git"))
            open(os.path.join(copy, m[0]), "w").write(m[6])
            if stable(copy):
                ready.put((k, m, copy))
            else:
                shutil.rmtree(copy, ignore_errors=True)
                log(dict(k=k, where=m[:6], result="tests"))
        ready.put(None)

    lock = threading.Lock()

    def log(d):
        with lock:
            with open(out, "a") as fo:
                fo.write(json.dumps(d) + "\n")

    ts = [threading.Thread(target=tester) for _ in range(workers)]
    for t in ts:
        t.start()
    done = 0
    while done < workers:
        x = ready.get()
        if x is None:
            done += 1
            continue
        k, m, copy = x
        t0 = time.time()
        res = "SURVIVED"
        for c in CHECKS[m[0]].split():
            env = dict(os.environ, PBT_REPO=copy, PBT_SCALE=scale, VERIF_SEED="1", PBT_KEEP_NUMBA="1",
                       NUMBA_CACHE_DIR=os.path.join(copy, "_nc"))
            r = subprocess.run(["timeout", "600", PY, "check.py", c], cwd=HERE, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                res = c
                break
            if r.returncode:
                res = f"{c} harness rc={r.returncode} {r.stdout[-300:]}"
                break
        shutil.rmtree(copy, ignore_errors=True)
        log(dict(k=k, where=m[:6], result=res, s=round(time.time() - t0)))
    for t in ts:
        t.join()


main()
