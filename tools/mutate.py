"""Mutation campaign: which small changes of a source file do the checks of a property miss?

mutate.py FILE CHECK[,CHECK...] [--cov DIR] [--max N] [--jobs J] [--out LOG] [--names func,func] [--seed S]
FILE is relative to the repository (VERIF_REPO).  Each mutant is made in a scratch copy of the repository and the
checks are run there until one fails; the survivors are printed with their diff.  Not used by any check."""
import argparse, ast, copy, difflib, os, random, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.FloorDiv: ast.Div, ast.MatMult: ast.Mult}


class Collect(ast.NodeVisitor):
    """yields (description, lineno, edit(source segments))"""

    def __init__(self, src):
        self.src, self.lines, self.out = src, src.splitlines(keepends=True), []
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.stack = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, e = self.pos(n)
        return self.b[a:e].decode()

    def add(self, n, new, what):
        a, e = self.pos(n)
        self.out.append((what, n.lineno, n.end_lineno, a, e, new, self.stack[-1] if self.stack else ""))

    def visit(self, n):
        fn = isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if fn:
            self.stack.append((self.stack[-1] + "." if self.stack else "") + n.name)
        self.handle(n)
        if fn:
            body = [s for s in n.body]
            for c in body:
                self.visit(c)
            self.stack.pop()
        else:
            self.generic_visit(n)

    def handle(self, n):
        inside = bool(self.stack)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op:
                m = copy.deepcopy(n)
                m.ops = [op()]
                self.add(n, "(" + ast.unparse(m) + ")", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) \
                and not isinstance(n.left, ast.JoinedStr) and not isinstance(n.right, ast.JoinedStr):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            self.add(n, "(" + ast.unparse(m) + ")", "bin")
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            self.add(n, "(" + ast.unparse(m) + ")", "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                self.add(n, "(" + (ast.unparse(m.values[0]) if len(m.values) == 1 else ast.unparse(m)) + ")", "drop-cond")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            self.add(n, "(" + ast.unparse(n.operand) + ")", "unary")
        if inside and isinstance(n, ast.If):
            self.add(n.test, "True", "if-true")
            self.add(n.test, "False", "if-false")
        if isinstance(n, ast.IfExp):
            self.add(n, "(" + ast.unparse(n.body) + ")", "ifexp-body")
            self.add(n, "(" + ast.unparse(n.orelse) + ")", "ifexp-else")
        if inside and isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                self.add(n, str(not n.value), "bool-const")
            elif isinstance(n.value, (int, float)):
                self.add(n, "(%r)" % (n.value + 1), "const+1")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    m = copy.deepcopy(n)
                    m.keywords = [q for q in m.keywords if q.arg != k.arg]
                    self.add(n, ast.unparse(m), "drop-kw " + k.arg)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "reshape", "squeeze", "ravel", "flatten", "unique", "sort", "tolist", "reset_index", "union", "intersection", "difference", "union_") :
                self.add(n, "(" + ast.unparse(n.func.value) + ")", "drop-call " + n.func.attr)
            if isinstance(n.func, ast.Name) and n.func.id in ("clone", "deepcopy", "sorted", "list", "set", "int", "abs", "float", "reversed", "str") and len(n.args) >= 1 and not n.keywords:
                self.add(n, "(" + ast.unparse(n.args[0]) + ")", "drop-call " + n.func.id)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                m = copy.deepcopy(n)
                m.args[0], m.args[1] = m.args[1], m.args[0]
                self.add(n, ast.unparse(m), "swap-args")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            sw = dict(min="max", max="min", argmin="argmax", argmax="argmin", mean="sum", any="all", all="any", ancestors="descendants",
                      descendants="ancestors", predecessors="successors", successors="predecessors", union="intersection",
                      intersection="union", vstack="hstack", hstack="vstack", fit_transform="transform", floor="ceil").get(n.attr)
            if sw:
                self.add(n, ast.unparse(n.value) + "." + sw, "attr " + sw)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ("min", "max", "any", "all"):
            self.add(n, dict(min="max", max="min", any="all", all="any")[n.id], "name")
        if inside and isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom))):
                self.add(n, "pass", "delete")
        if inside and isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "delete-assign")
        if inside and isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            t = n.targets[0].id
            names = [x for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id == t]
            if names:
                self.add(n, "pass", "delete-update")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp) and isinstance(n.ctx, ast.Load):
            m = copy.deepcopy(n)
            m.slice = ast.Constant(0)
            self.add(n, ast.unparse(m), "index0")


def covered(cov, rel):
    s = set()
    for d, _, fs in os.walk(cov):
        for f in fs:
            for l in open(os.path.join(d, f)):
                a, _, b = l.rstrip().rpartition(":")
                if "ylearn/" + a == rel:
                    s.add(int(b))
    return s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--cov")
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--vjobs", type=int, default=3)
    ap.add_argument("--out")
    ap.add_argument("--names", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lines", default="")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    src = open(os.path.join(REPO, a.file)).read()
    c = Collect(src)
    c.visit(ast.parse(src))
    muts = c.out
    # messages, warnings and logging are of no interest
    quiet = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Name) and n.func.value.id in ("logger", "warnings", "logging")):
            quiet.update(range(n.lineno, n.end_lineno + 1))
    muts = [m for m in muts if m[1] not in quiet]
    if a.cov:
        s = covered(a.cov, a.file)
        muts = [m for m in muts if any(l in s for l in range(m[1], m[2] + 1))]
    if a.names:
        ns = a.names.split(",")
        muts = [m for m in muts if any(x in m[6] for x in ns)]
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        muts = [m for m in muts if lo <= m[1] <= hi]
    random.Random(a.seed).shuffle(muts)
    ok = []
    seen = set()
    for m in muts:
        t = (c.b[:m[3]] + m[5].encode() + c.b[m[4]:]).decode()
        try:
            k = ast.dump(ast.parse(t))
        except SyntaxError:
            continue
        if k in seen:
            continue
        seen.add(k)
        ok.append((m, t))
    muts = ok[:a.max]
    print(len(ok), "mutants,", len(muts), "tried", flush=True)
    if a.list:
        return
    log = open(a.out, "a") if a.out else None
    for lib in ("numpy", "pandas", "scipy.stats", "sklearn.ensemble", "sklearn.linear_model", "networkx", "torch", "pyro", "pyro.infer",
                "hypothesis", "hypothesis.strategies", "joblib", "matplotlib.pyplot", "IPython.display", "torch.distributions"):
        try:
            __import__(lib)
        except ImportError:
            print("no", lib)
    tag = a.file.replace("/", "_").replace(".py", "")
    base = "/tmp/mw/%s_%d" % (tag, os.getpid())
    os.makedirs(base)
    free = []
    for j in range(a.jobs):
        w = os.path.join(base, str(j))
        subprocess.run(["rsync", "-a", "--exclude=.git", REPO + "/", w], check=True) if shutil.which("rsync") else \
            shutil.copytree(REPO, w, symlinks=True, ignore=lambda d, n: {".git", "build", "tests", "example_usages", "docs"} & set(n))
        free.append(w)
    count = {}
    running = {}

    def start(w, mt, todo):
        with open(os.path.join(w, a.file), "w") as f:
            f.write(mt[1])
        pid = os.fork()
        if pid == 0:
            code = 5
            try:
                os.setsid()
                fd = os.open(w + ".log", os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.environ.update(VERIF_REPO=w, VERIF_FIRST="1", VERIF_JOBS=str(a.vjobs), VERIF_CASE_SECONDS="40", VERIF_TIER="quick")
                sys.path[:0] = [w, ROOT]
                sys.path = [q for q in sys.path if q not in (REPO, "/repo", "/verif")]
                os.chdir(ROOT)
                from vlib.harness import main as run
                code = run([todo[0], "--tier", "quick"])
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 2
            finally:
                sys.stdout.flush()
                os._exit(code)
        running[pid] = (w, mt, todo, time.time())

    def finish(w, mt, res):
        (what, l1, l2, x, y, new, where), text = mt
        count[res.split()[0]] = count.get(res.split()[0], 0) + 1
        if res != "killed":
            d = "".join(difflib.unified_diff(src.splitlines(1), text.splitlines(1), n=2))
            tail = ""
            if res != "survived":
                tail = "".join(open(w + ".log", errors="replace").readlines()[-4:])
            print("=== %s [%s] %s:%d in %s\n%s%s" % (res, what, a.file, l1, where, "".join(d.splitlines(1)[2:]), tail), flush=True, file=log or sys.stdout)
        free.append(w)

    queue = list(muts)
    while queue or running:
        while queue and free:
            start(free.pop(), queue.pop(0), a.checks.split(","))
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for q, (w, mt, todo, t0) in list(running.items()):
                if time.time() - t0 > 400:
                    os.killpg(q, 9)
            time.sleep(0.05)
            continue
        if pid not in running:
            continue
        w, mt, todo, t0 = running.pop(pid)
        try:
            os.killpg(pid, 9)
        except OSError:
            pass
        rc = os.waitstatus_to_exitcode(status)
        if rc == 1:
            finish(w, mt, "killed")
        elif rc == 0:
            if todo[1:]:
                start(w, mt, todo[1:])
            else:
                finish(w, mt, "survived")
        else:
            finish(w, mt, "error %d in %s" % (rc, todo[0]))
    print("%s %s: %s" % (a.file, a.checks, count), flush=True, file=log or sys.stdout)
    shutil.rmtree(base, ignore_errors=True)


main()
