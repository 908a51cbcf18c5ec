"""Development aid: systematic mutation of /repo/pyown to find what the checks miss.
usage: mutants.py LIST | RUN [file-substring] > results"""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))

FIRST = {
    "auth": ["C09", "C10", "C11"], "messages": ["C01", "C02", "C28", "C03"], "tags/where": ["C05", "C25"], "tags": ["C04", "C28", "C01"],
    "protocol": ["C06", "C07", "C08", "C26", "C27", "C24"], "client/session": ["C11", "C12"], "client/base": ["C11", "C12", "C27", "C24", "C26"],
    "client/client": ["C23", "C24", "C25", "C20", "C12"], "items/base": ["C13", "C15", "C17", "C26", "C25"], "lighting": ["C13", "C14", "C15", "C20"],
    "automation": ["C13", "C15", "C21"], "camera": ["C13", "C14", "C21"], "gateway": ["C16", "C17", "C21", "C14"],
    "energy": ["C18", "C19", "C22"], "exceptions": ["C02"], "utils": ["C25", "C20"],
}

class Sites(ast.NodeVisitor):
    def __init__(self): self.out = []; self.doc = set()
    def add(self, node, tag): self.out.append((id(node), tag))
    def generic_visit(self, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                self.doc.add(id(node.body[0])); self.doc.add(id(node.body[0].value))
        super().generic_visit(node)

def muts_of(node, doc):
    """yield (description, function replacing node -> new node)"""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        swap = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for o in swap.get(type(node.ops[0]), []):
            def f(n, o=o): n.ops = [o()]; return n
            yield f"cmp->{o.__name__}", f
    if isinstance(node, ast.BoolOp):
        def f(n): n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); return n
        yield "boolop", f
        for i in range(len(node.values)):
            def f(n, i=i):
                n.values.pop(i); return n if len(n.values) > 1 else n.values[0]
            yield f"drop operand {i}", f
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "not", lambda n: n.operand
    if isinstance(node, ast.BinOp):
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr,
             ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitXor: ast.BitAnd}
        if type(node.op) in m:
            def f(n): n.op = m[type(n.op)](); return n
            yield "binop", f
    if isinstance(node, ast.Constant) and id(node) not in doc:
        v = node.value
        if isinstance(v, bool):
            def f(n): n.value = not n.value; return n
            yield "bool const", f
        elif isinstance(v, int):
            for d in (1, -1):
                def f(n, d=d): n.value += d; return n
                yield f"int{d:+d}", f
        elif isinstance(v, str) and v:
            def f(n): n.value = str(int(v) + 1).zfill(len(v)) if v.isdecimal() else v + "1"; return n
            yield "str const", f
            if not v.isdecimal():
                def f(n): n.value = ""; return n
                yield "str empty", f
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        if not isinstance(node.test, ast.Constant):
            for b in (True, False):
                def f(n, b=b): n.test = ast.Constant(b); return n
                yield f"test {b}", f
    if isinstance(node, ast.Expr) and id(node) not in doc:
        yield "del stmt", lambda n: ast.Pass()
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)):
        yield "del stmt", lambda n: ast.Pass()
    if isinstance(node, ast.Break): yield "break->continue", lambda n: ast.Continue()
    if isinstance(node, ast.Continue): yield "continue->break", lambda n: ast.Break()
    if isinstance(node, ast.Return) and node.value is not None:
        def f(n): n.value = None; return n
        yield "return None", f
    if isinstance(node, ast.Call):
        if len(node.args) >= 2:
            def f(n): n.args[0], n.args[1] = n.args[1], n.args[0]; return n
            yield "swap args", f
            def f(n): n.args[-1], n.args[-2] = n.args[-2], n.args[-1]; return n
            if len(node.args) > 2: yield "swap last args", f
        for i in range(len(node.keywords)):
            def f(n, i=i): n.keywords.pop(i); return n
            yield f"drop kw {i}", f
    if isinstance(node, ast.ExceptHandler):
        def f(n): n.body = [ast.Raise()]; return n
        yield "handler re-raise", f
        if isinstance(node.type, ast.Tuple):
            for i in range(len(node.type.elts)):
                def f(n, i=i): n.type.elts.pop(i); return n
                yield f"drop exc {i}", f
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            def f(n): n.lower = None; return n
            yield "slice no lower", f
    if isinstance(node, ast.Attribute) and node.attr in ("tag", "string"):
        def f(n): n.attr = "string" if n.attr == "tag" else "tag"; return n
        yield "tag<->string", f
    if isinstance(node, ast.Await):
        pass

def skip(node, parents):
    # type annotations, __all__, logging
    return False

def mutants(path):
    src = open(path, newline="").read()
    tree = ast.parse(src)
    s = Sites(); s.visit(tree)
    nodes = []
    def walk(n, anno=False):
        for name, val in ast.iter_fields(n):
            a = anno or name in ("annotation", "returns")
            for c in (val if isinstance(val, list) else [val]):
                if isinstance(c, ast.AST):
                    if a: continue
                    if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and ast.unparse(c.value).startswith("log."): continue
                    if isinstance(c, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in c.targets): continue
                    if isinstance(c, (ast.Import, ast.ImportFrom)): continue
                    if isinstance(c, ast.Raise) and c.exc is not None:
                        nodes.append(c); continue  # not the message text
                    nodes.append(c); walk(c)
    walk(tree)
    out = []
    for i, n in enumerate(nodes):
        for j, (desc, _) in enumerate(muts_of(n, s.doc)):
            out.append((i, j, desc, getattr(n, "lineno", 0)))
    def make(i, j):
        t2 = ast.parse(src)
        s2 = Sites(); s2.visit(t2)
        nodes2 = []
        def walk2(n):
            for name, val in ast.iter_fields(n):
                if name in ("annotation", "returns"): continue
                lst = val if isinstance(val, list) else [val]
                for k, c in enumerate(lst):
                    if isinstance(c, ast.AST):
                        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and ast.unparse(c.value).startswith("log."): continue
                        if isinstance(c, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in c.targets): continue
                        if isinstance(c, (ast.Import, ast.ImportFrom)): continue
                        nodes2.append((c, n, name, k if isinstance(val, list) else None))
                        if isinstance(c, ast.Raise) and c.exc is not None: continue
                        walk2(c)
        walk2(t2)
        c, parent, name, k = nodes2[i]
        f = list(muts_of(c, s2.doc))[j][1]
        new = f(c)
        if k is None: setattr(parent, name, new)
        else: getattr(parent, name)[k] = new
        ast.fix_missing_locations(t2)
        return ast.unparse(t2)
    return out, make

def files(sub):
    for d, _, fs in os.walk(os.path.join(REPO, "pyown")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".py") and sub in p: yield p

def work(job):
    path, i, j, desc, line, text = job
    rel = os.path.relpath(path, REPO)
    d = tempfile.mkdtemp(prefix="mut", dir="/dev/shm")
    try:
        for x in ("pyown", "tests", "pyproject.toml"):
            src = os.path.join(REPO, x)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, x))
        open(os.path.join(d, rel), "w").write(text)
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=10", "tests"], cwd=d, env=env,
                           capture_output=True, text=True)
        if r.returncode != 0:
            return f"tests   {rel}:{line} {desc}"
        first = next((v for k, v in FIRST.items() if k in rel), [])
        try:
            r = subprocess.run(["python3-vt", "-B", os.path.join(HERE, "anykill.py"), "4", *first], env={**env, "VERIF_DEV_REPO": d, "PYTHONHASHSEED": "0"},
                               capture_output=True, text=True, timeout=400)
            last = (r.stdout.strip().splitlines() or ["?"])[-1]
        except subprocess.TimeoutExpired:
            last = "TIMEOUT"
        a = open(path).read().splitlines()
        srcline = a[line - 1].strip() if line else ""
        return f"{last.split()[0]:8} {rel}:{line} {desc} | {srcline[:80]} | {last[:150]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    jobs = []
    for p in files(sys.argv[2] if len(sys.argv) > 2 else ""):
        out, make = mutants(p)
        for i, j, desc, line in out:
            if sys.argv[1] == "LIST":
                jobs.append(p); continue
            try: jobs.append((p, i, j, desc, line, make(i, j)))
            except Exception as e: print("GEN", p, i, j, e)
    if sys.argv[1] == "LIST":
        from collections import Counter
        for k, v in Counter(jobs).items(): print(v, k)
        print(len(jobs)); sys.exit()
    with ThreadPoolExecutor(8) as ex:
        for line in ex.map(work, jobs):
            print(line, flush=True)
