#!/usr/bin/env python3
"""Development tool: small systematic changes to dcor that the tests let pass.

    tools/mutate.py [-j N] [--files F,F] [--seed N] [--max N] --out LOG

Each change is made in a scratch copy; if the repository's tests still pass,
the checks of the properties anchored in the file are run until one fails.
The survivors have to be read by hand: most change no behaviour.
"""
import argparse, ast, concurrent.futures, json, os, queue, random, re, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
PROPS = {
    "_dcor.py": "C01 C02 C03 C14 C11 C16 C13 C12",
    "_dcor_internals.py": "C10 C01 C09 C16 C13 C12 C15",
    "_dcor_internals_numba.py": "C10 C01 C12",
    "_energy.py": "C07 C08 C14 C04 C13",
    "_fast_dcov_avl.py": "C02 C11 C13 C14 C12 C03",
    "_fast_dcov_mergesort.py": "C02 C13 C14 C12 C03",
    "_hypothesis.py": "C05 C06 C18 C08",
    "_partial_dcor.py": "C09 C18 C14 C13",
    "_rowwise.py": "C11 C14 C12",
    "_utils.py": "C13 C14 C06 C01 C07 C02 C12 C15",
    "distances.py": "C15 C13 C01 C14",
    "homogeneity.py": "C08 C05 C06 C14 C18 C13",
    "independence.py": "C05 C17 C18 C06 C14 C13",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "+",
       ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
AUG = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    offs = [0]
    for l in src.splitlines(True):
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    span = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    docs = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
        if isinstance(n, (ast.FunctionDef,)):
            for a in list(ast.walk(n.args)):
                for b in ast.walk(a.annotation) if isinstance(a, ast.arg) and a.annotation else ():
                    skip.add(b)
            if n.returns:
                skip.update(ast.walk(n.returns))
        if isinstance(n, (ast.AnnAssign,)):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
    out = []

    def add(n, new, what):
        out.append((n.lineno, what, span(n), new))

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    for n in ast.walk(tree):
        if n in skip or n in docs:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            new = BIN[type(n.op)]
            old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%",
                   ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
            if old in mid:
                out.append((n.lineno, "%s -> %s" % (old, new), (a, b), mid.replace(old, new, 1)))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for new in CMP[type(n.ops[0])]:
                add(n, "%s %s %s" % (seg(n.left), new, seg(n.comparators[0])), "cmp " + new)
        elif isinstance(n, ast.BoolOp):
            new = "or" if isinstance(n.op, ast.And) else "and"
            add(n, "(" + (" %s " % new).join("(%s)" % seg(v) for v in n.values) + ")", "bool " + new)
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                add(n, "(" + (" and " if new == "or" else " or ").join("(%s)" % seg(v) for v in rest) + ")", "drop term %d" % k)
        elif isinstance(n, ast.UnaryOp):
            add(n, "(" + seg(n.operand) + ")", "drop unary")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const +1")
                if n.value:
                    add(n, str(n.value - 1), "const -1")
            elif isinstance(n.value, float):
                add(n, str(n.value * 2), "const *2")
        elif isinstance(n, ast.If):
            add(n.test, "not (%s)" % seg(n.test), "negate if")
            add(n.test, "False", "if False")
            add(n.test, "True", "if True")
        elif isinstance(n, ast.AugAssign) and type(n.op) in AUG:
            add(n, "%s %s %s" % (seg(n.target), AUG[type(n.op)], seg(n.value)), "aug")
            add(n, "pass", "drop aug")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.Call) and n.value.args:
            t, v = n.targets[0], n.value.args[0]
            if isinstance(t, ast.Name):
                add(n.value, seg(v), "call -> first arg")
            add(n, "pass", "drop assign")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop call")
        elif isinstance(n, (ast.Raise, ast.Assert)):
            add(n, "pass", "drop raise")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    m = "%s(%s)" % (seg(n.func), ", ".join([seg(a) for a in n.args] + [
                        ("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords if q is not k]))
                    add(n, m, "drop keyword " + k.arg)
            if len(n.args) >= 2:
                for j in range(len(n.args) - 1):
                    aa = [seg(a) for a in n.args]
                    aa[j], aa[j + 1] = aa[j + 1], aa[j]
                    add(n, "%s(%s)" % (seg(n.func), ", ".join(aa + [
                        ("%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value)) for q in n.keywords])), "swap args %d" % j)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "abs", "astype", "ravel", "reshape") and isinstance(n.func.value, ast.expr):
                add(n, seg(n.func.value), "drop ." + n.func.attr)
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call) and n.value.args:
            add(n.value, seg(n.value.args[0]), "return first arg")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower is not None:
                add(s.lower, "(%s) + 1" % seg(s.lower), "slice lower")
            if s.upper is not None:
                add(s.upper, "(%s) - 1" % seg(s.upper), "slice upper")
    res = []
    for line, what, (a, b), new in out:
        text = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        if text != src:
            res.append((line, what, raw[a:b].decode(), new, text))
    return res


def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--files")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out", required=True)
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args()
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["new"]))
    todo = []
    for f in (args.files.split(",") if args.files else PROPS):
        ms = [m for m in mutants(os.path.join(REPO, "dcor", f)) if (f, m[0], m[1], m[3]) not in done]
        random.Random(args.seed).shuffle(ms)
        todo += [(f,) + m for m in ms]
        print(f, len(ms))
    random.Random(args.seed).shuffle(todo)
    todo = todo[:args.max]
    if args.list:
        return
    root = tempfile.mkdtemp(prefix="mutate-")
    snap = root + "/v"
    shutil.copytree(HERE, snap, symlinks=True, ignore=shutil.ignore_patterns(".git", "evidence", "__pycache__", "seeded"))
    free = queue.Queue()
    for k in range(args.j):
        w = "%s/w%d" % (root, k)
        shutil.copytree(REPO, w + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        free.put(w)
    log = open(args.out, "a")

    def one(m):
        f, line, what, old, new, text = m
        w = free.get()
        path = os.path.join(w, "repo", "dcor", f)
        orig = open(path).read()
        st = os.stat(path)
        rec = dict(file=f, line=line, what=what, old=old, new=new)
        try:
            open(path, "w").write(text)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=w + "/repo",
                       NUMBA_CACHE_DIR=w + "/nb", NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="2")
            rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "-x"], w + "/repo", env, 400)
            rec["tests"] = rc
            if rc == 0:
                e2 = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=w + "/ev")
                rec["checks"] = {}
                for p in PROPS[f].split():
                    rc, out = sh(["python3", snap + "/run.py", "--property", p, "--numba-cache", w + "/nb", "--workers", "4"],
                                 snap, e2, 1200)
                    rec["checks"][p] = rc
                    if rc == 1:
                        rec["caught"] = p
                        rec["how"] = (re.findall(r"^  scenario .*", out, re.M) or [""])[0][:200]
                        rec["hits"] = (re.findall(r"(\d+ of \d+) judged", out) or [""])[0]
                        break
                    if rc not in (0, 1):
                        rec["err"] = out[-400:]
        finally:
            open(path, "w").write(orig)
            os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
            free.put(w)
        return rec
    with concurrent.futures.ThreadPoolExecutor(args.j) as ex:
        for fu in concurrent.futures.as_completed([ex.submit(one, m) for m in todo]):
            r = fu.result()
            log.write(json.dumps(r) + "\n")
            log.flush()
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
