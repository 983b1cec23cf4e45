#!/usr/bin/env python3
"""Development tool: validates planted changes and runs the checks on them.

    tools/seedcheck.py [--no-tests] [--props P,P] [-j N] ID...

Every change is applied to a scratch copy of /repo, never to /repo itself.
"""
import argparse, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SNAP = tempfile.mkdtemp(prefix="seed-snap-")     # the checks as they are now
shutil.copytree(HERE, SNAP + "/v", symlinks=True, ignore=shutil.ignore_patterns(".git", "evidence", "__pycache__"))


def sh(cmd, cwd, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def one(i, args):
    d = os.path.join(SNAP, "v", "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed-" + i + "-")
    try:
        rep = os.path.join(w, "repo")
        shutil.copytree("/repo", rep, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=rep)
        res = {}
        if not args.no_demo:
            env["NUMBA_CACHE_DIR"] = w + "/nb0"
            rc, out = sh(["bash", d + "/demo.sh"], rep, env)
            res["demo_clean"] = rc
            if rc: print(i, "DEMO ON CLEAN:", out[-600:])
        rc, out = sh(["git", "apply", d + "/patch.diff"], rep)
        if rc:
            return i, meta, {"apply": out}
        if not args.no_demo:
            env["NUMBA_CACHE_DIR"] = w + "/nb1"
            res["demo_patched"], out = sh(["bash", d + "/demo.sh"], rep, env)
        if not args.no_tests:
            env["NUMBA_CACHE_DIR"] = w + "/nb2"
            rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "-x"], rep, env)
            res["tests"] = "pass" if rc == 0 else "FAIL " + "; ".join(re.findall(r"^FAILED (.*?)(?: - |$)", out, re.M))[:200]
        props = args.props.split(",") if args.props else [meta["property"]]
        if args.props != "none":
            e2 = dict(os.environ, VERIF_REPO=rep, VERIF_SEED=args.seed, VERIF_TIER="quick", VERIF_EVIDENCE=w + "/evidence")
            for p in props:
                rc, out = sh(["python3", SNAP + "/v/run.py", "--property", p, "--tier", "quick"], SNAP + "/v", e2)
                bad = re.findall(r"^  scenario .*", out, re.M)
                res[p] = "%s %s" % ({0: "MISSED", 1: "caught", 2: "MACHINERY"}.get(rc, rc),
                                    (re.findall(r"(\d+ of \d+) judged", out) or [""])[0])
                if rc == 2: res[p] += out[-500:]
                if args.v: res[p] += "\n      " + "\n      ".join(b[:200] for b in bad[:3])
        return i, meta, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-demo", action="store_true")
ap.add_argument("--props")
ap.add_argument("--seed", default="1")
ap.add_argument("-v", action="store_true")
ap.add_argument("-j", type=int, default=2)
args = ap.parse_args()
ids = args.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
with concurrent.futures.ThreadPoolExecutor(args.j) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, i, args) for i in ids]):
        i, meta, res = f.result()
        print(i, meta["property"], " ".join("%s=%s" % kv for kv in res.items()), flush=True)
shutil.rmtree(SNAP, ignore_errors=True)
