"""Executes the scenarios of a property against the real dcor.

    drive.py --property C01 --tier quick --seed 1 --workers 7 --out DIR
             [--gen FILE] [--only IDX]

Imports dcor once, then forks the workers; worker k executes the scenarios
with index = k (mod workers) and writes one JSON line per scenario to
DIR/trace-k.ndjson.  A scenario that kills the interpreter or hangs is
recorded as such, and the rest is still executed (except what its worker
still had to do, after a hang).
"""
from __future__ import annotations

import argparse
import json
import os
import signal
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

HANG = 200  # seconds for a single scenario


def scenarios(prop, tier, seed, gen):
    import numpy as np
    rng = np.random.default_rng([seed, zlib.crc32(prop.encode())])
    import scen
    return scen.get(prop)(rng, tier, gen)


def work(args, gen, part, start, path):
    import warnings
    warnings.simplefilter("ignore")
    with open(path, "a") as out, open(path + ".pos", "w") as pos:
        for i, (desc, job) in enumerate(scenarios(args.property, args.tier, args.seed, gen)):
            if args.only is not None:
                if i != args.only or part != 0:
                    continue
            elif i % args.workers != part or i < start:
                continue
            pos.seek(0)
            pos.write(json.dumps([i, desc]) + "\n")
            pos.truncate()
            pos.flush()
            try:
                g = job()
            except Exception as exc:  # the code under test returned something unexpected
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                g = {"kind": "broken", "what": "%s: %s (%s:%d)" % (
                    type(exc).__name__, str(exc)[:200], os.path.basename(tb.filename), tb.lineno)}
            if g is None:
                continue
            g["id"] = i
            g["desc"] = desc
            out.write(json.dumps(g, separators=(",", ":")) + "\n")
            out.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=7)
    ap.add_argument("--out", required=True)
    ap.add_argument("--only", type=int, default=None)
    ap.add_argument("--gen", default=None)
    args = ap.parse_args()

    t0 = time.time()
    import dcor
    where = os.path.realpath(os.path.dirname(os.path.dirname(dcor.__file__)))
    if where != os.path.realpath(REPO):
        print("dcor imported from", where, file=sys.stderr)
        sys.exit(3)
    import scen  # noqa: F401  (imports everything before forking)
    t1 = time.time()

    gen = None
    if args.gen:
        while not os.path.exists(args.gen):
            if os.path.exists(args.gen + ".failed"):
                sys.exit(4)
            time.sleep(0.1)
        gen = json.load(open(args.gen))

    def spawn(part, start):
        path = os.path.join(args.out, "trace-%d.ndjson" % part)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                work(args, gen, part, start, path)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        return pid

    def position(part):
        try:
            with open(os.path.join(args.out, "trace-%d.ndjson.pos" % part)) as f:
                return json.loads(f.readline())
        except (OSError, ValueError):
            return None

    live = {spawn(k, 0): [k, None, time.time()] for k in range(args.workers)}
    failed = False
    while live:
        time.sleep(0.05)
        for pid in list(live):
            part, last, since = live[pid]
            done, status = os.waitpid(pid, os.WNOHANG)
            how = None
            if done == 0:
                p = position(part)
                if p != last:
                    live[pid][1:] = [p, time.time()]
                    continue
                elif time.time() - since > HANG:
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    how = "did not end in %d s" % HANG
                else:
                    continue
            elif status == 0:
                del live[pid]
                open(os.path.join(args.out, "trace-%d.done" % part), "w").close()
                continue
            elif os.WIFSIGNALED(status):
                how = "killed the interpreter (signal %d)" % os.WTERMSIG(status)
            elif os.WEXITSTATUS(status) not in (0, 1):
                how = "ended the interpreter (exit %d)" % os.WEXITSTATUS(status)
            else:
                failed = True
                how = "harness error"
            del live[pid]
            p = position(part)
            if p is None or failed:
                failed = True
                open(os.path.join(args.out, "trace-%d.done" % part), "w").close()
                continue
            with open(os.path.join(args.out, "trace-%d.ndjson" % part), "a") as f:
                f.write(json.dumps({"id": p[0], "desc": p[1], "kind": "broken",
                                    "what": "the scenario " + how}) + "\n")
            if how.startswith("did not end"):       # enough: the verdict has to arrive in time
                open(os.path.join(args.out, "trace-%d.done" % part), "w").close()
            else:
                live[spawn(part, p[0] + 1)] = [part, None, time.time()]
    print(json.dumps({"import_s": round(t1 - t0, 1), "run_s": round(time.time() - t1, 1)}))
    sys.exit(4 if failed else 0)


if __name__ == "__main__":
    main()
