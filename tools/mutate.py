"""Mutation testing of the checks (not a check itself).

mutate.py LIST.json OUT.jsonl [-j N] [-n MAX] [-s SEED]
LIST.json: [{"file": "pylbm/stencil.py", "lines": [a, b] (optional), "checks": ["P01", "P02"]}, ...]

Small changes of the source (operators, constants, conditions, statements) are made one at a
time in copies of /repo under /tmp/mut; for each, one part out of 8 of the checks listed is
run until one of them fails. The mutants which survive are to be looked at by hand.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult],
       ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Add], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def skip(node):
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return True
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        f = ast.unparse(node.value.func)
        return f.startswith(("log.", "print"))
    return isinstance(node, (ast.Import, ast.ImportFrom, ast.Raise, ast.FunctionDef, ast.ClassDef))


def sites(tree):
    """(line, description, function which changes the tree)"""
    out = []
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            if isinstance(val, list) and field in ("body", "orelse"):
                for i, st in enumerate(val):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not skip(st):
                        out.append((st.lineno, "delete `%s`" % ast.unparse(st)[:70], ("del", parent, field, i)))
                    if isinstance(st, (ast.If, ast.While)):
                        for c in (True, False):
                            if isinstance(st, ast.If):
                                out.append((st.lineno, "if %s -> %s" % (ast.unparse(st.test)[:60], c), ("test", st, c)))
    logs = set()
    for node in ast.walk(tree):
        if skip(node) and not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(node):
                logs.add(id(n))
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            for n in node.decorator_list:
                for m in ast.walk(n):
                    logs.add(id(m))
    for node in ast.walk(tree):
        if id(node) in logs or not hasattr(node, "lineno"):
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for c in CMP.get(type(node.ops[0]), []):
                out.append((node.lineno, "%s: %s" % (ast.unparse(node)[:70], c.__name__), ("op", node, "ops", c)))
        elif isinstance(node, ast.BinOp):
            for c in BIN.get(type(node.op), []):
                out.append((node.lineno, "%s: %s" % (ast.unparse(node)[:70], c.__name__), ("op", node, "op", c)))
        elif isinstance(node, ast.AugAssign):
            for c in BIN.get(type(node.op), []):
                out.append((node.lineno, "%s: %s" % (ast.unparse(node)[:70], c.__name__), ("op", node, "op", c)))
        elif isinstance(node, ast.BoolOp):
            c = ast.Or if isinstance(node.op, ast.And) else ast.And
            out.append((node.lineno, "%s: %s" % (ast.unparse(node)[:70], c.__name__), ("op", node, "op", c)))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            out.append((node.lineno, "drop the sign or not of %s" % ast.unparse(node)[:70], ("unary", node)))
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float, bool):
            if isinstance(node.value, bool):
                out.append((node.lineno, "constant %s" % node.value, ("const", node, not node.value)))
            else:
                out.append((node.lineno, "constant %s+1" % node.value, ("const", node, node.value + 1)))
    return sorted(out, key=lambda s: s[0])


def mutant(src, k):
    tree = ast.parse(src)
    line, what, op = sites(tree)[k]
    if op[0] == "del":
        getattr(op[1], op[2])[op[3]] = ast.copy_location(ast.Pass(), getattr(op[1], op[2])[op[3]])
    elif op[0] == "test":
        op[1].test = ast.copy_location(ast.Constant(op[2]), op[1].test)
    elif op[0] == "op":
        if op[2] == "ops":
            op[1].ops = [op[3]()]
        else:
            op[1].op = op[3]()
    elif op[0] == "unary":
        op[1].op = ast.UAdd() if isinstance(op[1].op, ast.USub) else op[1].op
        if isinstance(op[1].op, ast.Not):
            op[1].operand = ast.UnaryOp(op=ast.Not(), operand=op[1].operand)
    elif op[0] == "const":
        op[1].value = op[2]
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def main():
    a = sys.argv[1:]
    opt = dict(zip(a[2::2], a[3::2]))
    rng = random.Random(int(opt.get("-s", 1)))
    jobs = []
    for e in json.load(open(a[0])):
        src = open("/repo/" + e["file"]).read()
        ss = sites(ast.parse(src))
        for k, (line, what, _) in enumerate(ss):
            if "lines" not in e or e["lines"][0] <= line <= e["lines"][1]:
                jobs.append((e["file"], k, line, what, e["checks"]))
    rng.shuffle(jobs)
    jobs = jobs[:int(opt.get("-n", 10**9))]
    done = set()
    if os.path.exists(a[1]):
        for l in open(a[1]):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    jobs = [j for j in jobs if (j[0], j[2], j[3]) not in done]
    nproc = int(opt.get("-j", 2))
    pool = Queue()
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    for i in range(nproc):
        r = os.path.join(base, "r%d" % i)
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        pool.put(r)
    out = open(a[1], "a")
    print(len(jobs), "mutants")

    def work(j):
        f, k, line, what, checks = j
        r = pool.get()
        src = open("/repo/" + f).read()
        t0 = time.time()
        try:
            new = mutant(src, k)
            res, by, msg = "survived", None, ""
            if new == ast.unparse(ast.parse(src)):
                res = "same"
            else:
                open(os.path.join(r, f), "w").write(new)
                for c in checks:
                    d = tempfile.mkdtemp(dir=base)
                    env = dict(os.environ, VERIF_REPO=r, VERIF_NOSHRINK="1", TMPDIR=d, OMP_NUM_THREADS="1",
                               MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
                    o = os.path.join(d, "out")
                    try:
                        p = subprocess.run([os.environ["PY"], os.path.join(VERIF, "vlib", "worker.py"), c, "quick",
                                            "1", "0", "8", o, os.path.join(d, "cur"), "150"], cwd=d, env=env,
                                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
                        if not os.path.exists(o):
                            res, by, msg = "killed", c, "died %s" % p.returncode
                        else:
                            q = json.load(open(o))
                            if q["failure"]:
                                res, by, msg = "killed", c, q["failure"]["message"][:150]
                            elif q["error"]:
                                res, by, msg = "error", c, q["error"][-300:]
                    except subprocess.TimeoutExpired:
                        res, by = "timeout", c
                    shutil.rmtree(d, ignore_errors=True)
                    if res != "survived":
                        break
        finally:
            open(os.path.join(r, f), "w").write(src)
            pool.put(r)
        out.write(json.dumps(dict(file=f, line=line, what=what, res=res, by=by, msg=msg, t=round(time.time() - t0))) + "\n")
        out.flush()

    try:
        with ThreadPoolExecutor(nproc) as ex:
            list(ex.map(work, jobs))
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
