#!/usr/bin/env python3
"""Decides one property of dcor: model checking plus trace validation with TLC.

    run.py --property C01 [--tier quick|thorough] [--seed N]
    run.py --replay FILE

Exit 0: held on everything explored; 1: violated (with a VIOLATION line);
2: the machinery itself failed.
"""
from __future__ import annotations

import argparse
import collections
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
SPEC = os.path.join(HERE, "spec")
TLA = "/opt/veriftools/tla"
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
sys.path.insert(0, os.path.join(HERE, "harness"))

import models  # noqa: E402  (harness/models.py)


class Machinery(Exception):
    pass


def say(*a):
    print(*a, flush=True)


class Tlc:
    def __init__(self, scratch):
        self.scratch = scratch
        self.cls = os.path.join(scratch, "cls")
        os.makedirs(self.cls)
        java = os.path.join(HERE, "java")
        srcs = [os.path.join(java, f) for f in sorted(os.listdir(java)) if f.endswith(".java")]
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", self.cls] + srcs,
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac failed:\n" + r.stdout + r.stderr)

    def run(self, name, module, cfg, env=None, workers="1", heap="2g", extra=(), timeout=3000):
        """Run TLC on spec/<module>.tla with the configuration text cfg."""
        d = os.path.join(self.scratch, "tlc-" + name)
        os.makedirs(d)
        path = os.path.join(d, module + ".cfg")
        with open(path, "w") as f:
            f.write(cfg)
        if module == "NumSelf":       # the definitions, under a name that is not overridden
            with open(os.path.join(SPEC, "Num.tla")) as f, open(os.path.join(d, "NumDef.tla"), "w") as g:
                g.write(f.read().replace("MODULE Num ", "MODULE NumDef "))
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides",
               "-DTLA-Library=" + d,
               "-cp", ":".join([self.cls, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
               "tlc2.TLC", "-workers", workers, "-metadir", os.path.join(d, "states"),
               "-config", path, "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + d
        e.update(env or {})
        out = os.path.join(d, "out.txt")
        end = time.time() + timeout
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            while p.poll() is None:
                try:
                    p.wait(2)
                except subprocess.TimeoutExpired:
                    with open(out, errors="replace") as f:
                        if time.time() > end or "TLC threw an unexpected exception" in f.read():
                            p.kill()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        with open(out, errors="replace") as f:
            text = f.read()
        return p.returncode, text + ("\nTLC %s timed out" % name if time.time() > end else "")


def counts(text):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"^The number of states generated: (\d+)", text, re.M)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def tail(text, n=40):
    lines = [x for x in text.splitlines() if not x.startswith(("Parsing", "Semantic", "Picked up"))]
    return "\n".join(lines[-n:])


def validate(tlc, k, path):
    cfg = ("SPECIFICATION Spec\nINVARIANT Report\nPOSTCONDITION Done\nCHECK_DEADLOCK FALSE\n")
    rc, text = tlc.run("trace-%s" % k, "Conform", cfg, env={"TRACE": path}, heap="3500m",
                       timeout=780 if os.environ.get("VERIF_TIER", "quick") == "quick" else 20000)
    m = re.search(r'<<"DONE", (\d+), (\d+)>>', text)
    c = re.search(r'<<"COUNTS", (\d+), (\d+), (\d+)>>', text)
    broken = None
    if rc != 0 or not m or not c or m.group(1) != m.group(2):
        broken = "trace validation did not complete (%s):\n%s" % (path, tail(text))
    verdicts = []
    for g in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.sub(r"\s*\n\s*", " ", text)):
        verdicts.append((int(g.group(1)), int(g.group(2)), g.group(3)))
    gen, distinct = counts(text)
    if broken:
        verdicts = sorted(set(verdicts))
    bad = sum(v[2].startswith("bad:") for v in verdicts)
    if broken:      # what was judged before is still valid
        return verdicts, (0, 0, bad), gen, distinct, broken
    return verdicts, tuple(map(int, c.groups())), gen, distinct, None


def read_trace(path):
    with open(path) as f:
        return [line for line in f if line.strip()]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true", help="keep the scratch directory")
    ap.add_argument("--numba-cache", help="development only: reuse compiled code (the tree must not change)")
    ap.add_argument("--workers", type=int, default=7)
    args = ap.parse_args()
    only = None
    if args.replay:
        rep = json.load(open(args.replay))
        args.property, args.tier, args.seed = rep["property"], rep["tier"], rep["seed"]
        only = rep["scenario"]
        if only is None:
            say("nothing to replay:", rep)
            return 2
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.property)
    try:
        return check(args, scratch, only)
    except Machinery as exc:
        say("MACHINERY FAILURE:", exc)
        return 2
    finally:
        if args.keep:
            say("scratch:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def check(args, scratch, only):
    t0 = time.time()
    prop = args.property
    models.SEED = args.seed
    plan = models.plan(prop, args.tier)
    env = dict(os.environ, NUMBA_CACHE_DIR=args.numba_cache or os.path.join(scratch, "numba"), PYTHONDONTWRITEBYTECODE="1",
               TMPDIR=scratch, JOBLIB_TEMP_FOLDER=scratch, PYTHONHASHSEED="0",
               OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="4",
               PYTHONPATH="")
    traces = os.path.join(scratch, "traces")
    os.makedirs(traces)
    genfile = os.path.join(scratch, "gen.json") if plan.get("gen") else None
    cmd = [PY, os.path.join(HERE, "harness", "drive.py"), "--property", prop, "--tier", args.tier,
           "--seed", str(args.seed), "--workers", str(args.workers), "--out", traces]
    if genfile:
        cmd += ["--gen", genfile]
    if only is not None:
        cmd += ["--only", str(only)]
    dlog = open(os.path.join(scratch, "drive.log"), "w")
    drv = subprocess.Popen(cmd, env=env, stdout=dlog, stderr=subprocess.STDOUT, cwd=scratch)
    pool = concurrent.futures.ThreadPoolExecutor(max_workers=7)
    stats = collections.Counter()
    model_notes = []
    try:
        tlc = Tlc(scratch)
        # behaviours and inputs generated from the specification
        gen_futures = []
        if genfile:
            data = {}
            futs = {g["key"]: pool.submit(tlc.run, "gen-" + g["key"], g["module"], g["cfg"],
                                          extra=g.get("extra", ()), heap="2g") for g in plan["gen"]}
            for key, f in futs.items():
                rc, text = f.result()
                items = [json.loads(json.loads('"' + m + '"')) for m in
                         re.findall(r'<<\s*"GEN",\s*"((?:[^"\\]|\\.)*)"\s*>>', text)]
                if rc != 0 or not items:
                    open(genfile + ".failed", "w").close()
                    raise Machinery("generator %s:\n%s" % (key, tail(text)))
                data[key] = items
                g, d = counts(text)
                stats["states"] += d
                stats["transitions"] += g
                stats["generated_cases"] += len(items)
                model_notes.append("%s: %d cases, %d distinct states" % (key, len(items), d))
            with open(genfile + ".tmp", "w") as f:
                json.dump(data, f)
            os.rename(genfile + ".tmp", genfile)
        # model checking of the design, meanwhile
        model_futs = []
        if only is None:
            model_futs = [(m, pool.submit(tlc.run, "model-" + m["name"], m["module"], m["cfg"],
                                          workers=str(m.get("workers", 2)), heap=m.get("heap", "3g"),
                                          extra=m.get("extra", ()))) for m in plan.get("models", ())]

        # validate each trace as soon as its worker is done
        pending = {k for k in range(args.workers)}
        val = {}
        lines = {}
        while pending:
            for k in sorted(pending):
                if os.path.exists(os.path.join(traces, "trace-%d.done" % k)):
                    pending.discard(k)
                    path = os.path.join(traces, "trace-%d.ndjson" % k)
                    lines[k] = read_trace(path) if os.path.exists(path) else []
                    if lines[k]:
                        val[k] = pool.submit(validate, tlc, k, path)
            if pending and drv.poll() is not None:
                time.sleep(0.3)
                if not all(os.path.exists(os.path.join(traces, "trace-%d.done" % k)) for k in pending):
                    raise Machinery("the driver ended early:\n" + open(dlog.name).read()[-3000:])
            time.sleep(0.05)
        rc = drv.wait()
        if rc != 0:
            raise Machinery("the driver failed (%d):\n%s" % (rc, open(dlog.name).read()[-3000:]))

        verdicts = []
        broken = []
        for k, f in val.items():
            v, c, g, d, b = f.result()
            if b:
                broken.append(b)
            verdicts += v
            stats["ok"] += c[0]
            stats["skip"] += c[1]
            stats["bad"] += c[2]
            stats["transitions"] += g
            stats["states"] += d
            stats["traces"] += len(lines[k])
        for m, f in model_futs:
            rc, text = f.result()
            if m.get("expect"):
                if rc != 12 or "Invariant %s is violated" % m["expect"] not in text:
                    raise Machinery("the negative control %s was not refuted:\n%s" % (m["name"], tail(text, 80)))
                model_notes.append("%s: refuted, as expected (%s)" % (m["name"], m["note"]))
                continue
            if rc != 0:
                raise Machinery("model %s:\n%s" % (m["name"], tail(text, 80)))
            g, d = counts(text)
            if d < m.get("min_states", 1):
                raise Machinery("model %s explored only %d states" % (m["name"], d))
            stats["states"] += d
            stats["transitions"] += g
            stats["model_states"] += d
            model_notes.append("%s: %d distinct states%s" % (m["name"], d, " (%s)" % m["note"] if m.get("note") else ""))
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        if drv.poll() is None:
            drv.kill()
        subprocess.run(["pkill", "-KILL", "-f", traces], capture_output=True)
        dlog.close()

    if broken and not verdicts:
        raise Machinery(broken[0])
    if stats["traces"] == 0 or not (stats["ok"] or verdicts):
        raise Machinery("nothing was judged")

    # ---------------------------------------------------------------- verdict
    groups = {}
    for ls in lines.values():
        for line in ls:
            m = re.search(r'"id":(\d+)', line)
            g = json.loads(line)
            groups[g["id"]] = g
    bads = sorted(v for v in verdicts if v[2].startswith("bad:"))
    known = load_known(prop)
    if len(bads) != stats["bad"]:
        raise Machinery("%d verdicts read, %d given" % (len(bads), stats["bad"]))
    unknown = []
    for i, c, what in bads:
        g = groups[i]
        hit = next((kf for kf in known if matches(kf, g, c, what)), None)
        if hit:
            say("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
        else:
            unknown.append((i, c, what))
    if broken and not unknown:
        raise Machinery(broken[0])
    skips = collections.Counter(v[2] for v in verdicts if v[2].startswith("skip:"))

    rc = 0
    replay = None
    if unknown:
        rc = 1
        i, c, what = unknown[0]
        os.makedirs(EVIDENCE, exist_ok=True)
        replay = os.path.join(EVIDENCE, "replay-%s.json" % prop)
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": args.tier, "seed": args.seed, "scenario": i,
                       "call": c, "clause": what, "desc": groups[i].get("desc"),
                       "how": "python3 run.py --replay " + replay,
                       "all": [[a, b, w, groups[a].get("desc")] for a, b, w in unknown[:200]],
                       "observation": groups[i]}, f, indent=1)
        for a, b, w in unknown[:12]:
            say("  scenario %d [%s], call %d: %s" % (a, groups[a].get("desc"), b, w))
        say("%d of %d judged calls are wrong" % (len(unknown), stats["ok"] + len(bads)))
        say("VIOLATION property=%s replay=%s" % (prop, replay))

    ids = sorted(groups)
    samples = []
    for i in ids[:: max(1, len(ids) // 5)][:5]:
        g = groups[i]
        text = json.dumps(g)
        samples.append(g if len(text) < 1500 else {"id": i, "desc": g.get("desc"), "kind": g["kind"],
                                                    "excerpt": text[:700]})
    kinds = collections.Counter(g["kind"] for g in groups.values())
    ev = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "model_checking",
        "coverage": {
            "states": stats["states"], "transitions": stats["transitions"],
            "traces_validated_against_impl": stats["traces"],
            "calls_judged": stats["ok"] + stats["bad"], "calls_not_applicable": dict(skips),
            "cases_generated_by_tlc": stats["generated_cases"],
            "models": model_notes, "observations_by_kind": dict(kinds), "samples": samples,
        },
        "assumptions": models.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": len(unknown),
    }
    if only is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(EVIDENCE, prop + ".json"))
    say("%s %s: %d scenarios, %d calls judged (%d ok, %d bad), %d not applicable; %d states; %.0f s  %s" % (
        prop, args.tier, stats["traces"], stats["ok"] + stats["bad"], stats["ok"], stats["bad"],
        stats["skip"], stats["states"], time.time() - t0, open(dlog.name).read().strip()[-120:]))
    return rc


def load_known(prop):
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def matches(kf, g, c, what):
    return g.get("known") == kf["id"] and kf["clause"] in what


if __name__ == "__main__":
    sys.exit(main())
