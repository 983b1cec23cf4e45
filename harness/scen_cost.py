"""C19: memory and processor time of the fast algorithms."""
from __future__ import annotations

import resource
import time
import tracemalloc
import warnings

import numpy as np

from common import FAMS, gen_column
from scen_pair import ops

slow = []           # calls that took very long: enough has been seen, the verdict has to arrive in time
SPARE = 2 << 30     # memory that a measured call may allocate, in bytes


def observed(op, cfg, f, args, memory, compiled=True, timed=True):
    """What a call takes.  It is made before with few observations, since code may be compiled then."""
    c = {"op": op, "cfg": cfg, "k": "ok", "compiled": compiled}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            f(*[a[..., :9] if a.ndim == 2 and a.shape[0] < a.shape[1] else a[:9] for a in args])
        except Exception as exc:  # noqa: BLE001
            c.update(k="err", t=type(exc).__name__)
            return c
        soft, hard = resource.getrlimit(resource.RLIMIT_DATA)
        with open("/proc/self/status") as status:
            now = next(int(line.split()[1]) for line in status if line.startswith("VmData:")) << 10
        if memory:
            tracemalloc.start()
        else:
            resource.setrlimit(resource.RLIMIT_DATA, (now + SPARE, hard))
        try:
            base = tracemalloc.get_traced_memory()[0] if memory else 0
            t = time.process_time()
            f(*args)
            t = time.process_time() - t
            if memory:
                c["kib"] = (tracemalloc.get_traced_memory()[1] - base) >> 10
            elif timed:
                c["ms"] = int(t * 1000)
                if t > 6:
                    slow.append(op)
        except Exception as exc:  # noqa: BLE001
            c.update(k="err", t=type(exc).__name__)
        finally:
            if memory:
                tracemalloc.stop()
            else:
                resource.setrlimit(resource.RLIMIT_DATA, (soft, hard))
    return c


def configs():
    import dcor
    M = dcor.CompileMode
    D = dcor.DistanceCovarianceMethod
    out = [("default", {}, True)]
    for m in (D.AUTO, D.AVL, D.MERGESORT):
        for c in (M.AUTO, M.NO_COMPILE, M.COMPILE_CPU):
            out.append(("%s, %s" % (m.name, c.name), dict(method=m, compile_mode=c), c is not M.NO_COMPILE))
    return out


DTYPES = ["float64", "float64", "float32", "int64", "int32", "int16", "uint8", "int8", "uint32"]
DATA = FAMS + ["constant", "zeros", "two", "increasing", "step"]


def column(r, n, fam):
    if fam == "zeros":
        return np.zeros(n)
    if fam == "two":
        return (np.arange(n) == int(r.integers(n))).astype(float)
    if fam == "increasing":
        return np.arange(n) / 8
    if fam == "step":
        return (np.arange(n) * 7 // n).astype(float)
    return gen_column(r, n, fam)


def pair(r, n, types=DTYPES):
    fams = [DATA[int(r.integers(len(DATA)))] for _ in "xy"]
    x, y = column(r, n, fams[0]), column(r, n, fams[1])
    k = r.random()
    if k < .1:
        y = x
    elif k < .2:
        y = -x
    out = []
    for a in (x, y):
        t = types[int(r.integers(len(types)))]
        if np.dtype(t).kind != "f":
            a = np.rint(a) % 100
        out.append(a.astype(t))
    if r.random() < .3:
        out[1] = out[1].astype(out[0].dtype)
    for i in range(2):
        k = r.random()
        if k < .1:
            out[i] = np.repeat(out[i], 2)[::2]
        elif k < .2:
            out[i] = out[i][::-1]
        if r.random() < .5:
            out[i] = out[i][:, None]
    if r.random() < .05:
        out[1] = out[0]
    return out


def others():
    import dcor
    return {"dcor_af_inv": dcor.distance_correlation_af_inv, "dcor_af_inv_sqr": dcor.distance_correlation_af_inv_sqr,
            "t_statistic": dcor.independence.distance_correlation_t_statistic,
            "t_test": dcor.independence.distance_correlation_t_test}


def job_memory(seed, n, k):
    """Every function and configuration, once in a while."""
    r = np.random.default_rng(seed)
    x, y = pair(r, n)
    o, calls = ops(), []
    cs = configs()
    if "float32" in (x.dtype.name, y.dtype.name):       # the compiled code can refuse it if requested explicitly
        cs = [c for c in cs if "COMPILE_CPU" not in c[0]]
    for i, name in enumerate(sorted(o)):
        for j in {0, (k + i) % len(cs), int(r.integers(len(cs)))}:
            label, kw, comp = cs[j]
            if slow and not comp:
                continue
            calls.append(observed(name, label, lambda a, b, f=o[name], kw=kw: f(a, b, **kw), (x, y), True, comp))
    for name, f in others().items():
        calls.append(observed(name, "default", f, (x.astype(float), y.astype(float)), True))
    return {"kind": "cost", "n": n, "rows": 1, "calls": calls}


def job_time(seed, n, k, compiled):
    if slow:
        return None
    r = np.random.default_rng(seed)
    x, y = pair(r, n, [t for t in DTYPES if t != "float32"])
    o, calls = ops(), []
    cs = [c for c in configs() if c[2] == compiled]
    names = sorted(o)
    for i in range(2):
        if slow:
            break
        label, kw, _ = cs[(k + i) % len(cs)]
        name = names[(k * 2 + i) % len(names)]
        calls.append(observed(name, label, lambda a, b, f=o[name], kw=kw: f(a, b, **kw), (x, y), False, compiled))
    return {"kind": "cost", "n": n, "rows": 1, "calls": calls}


def job_screen(seed, n, small):
    """Every configuration: the first thing that every worker does."""
    r = np.random.default_rng(seed)
    x, y = column(r, n, "double"), np.arange(n) / 4
    f, calls = ops()["stats_sqr"], []
    for label, kw, comp in configs():
        k = n if comp else small
        if not slow:
            calls.append(observed("stats_sqr", label, lambda a, b, kw=kw: f(a, b, **kw), (x[:k], y[:k]), False, comp))
            calls[-1]["n"] = k
    return {"kind": "many", "groups": [{"kind": "cost", "n": c.pop("n"), "rows": 1, "calls": [c]} for c in calls]}


def job_rows(seed, n, nrows, memory):
    if slow and not memory:
        return None
    import dcor
    r = np.random.default_rng(seed)
    x, y = (np.stack([column(r, n, DATA[int(r.integers(len(DATA)))]) for _ in range(nrows)]) for _ in "xy")
    if r.random() < .4:
        t = DTYPES[int(r.integers(3, len(DTYPES)))]
        x = (np.rint(x) % 100).astype(t)
        if r.random() < .6:
            y = (np.rint(y) % 100).astype(t)
    o, calls = ops(), []
    M, R = dcor.CompileMode, dcor.RowwiseMode
    names = sorted(o)
    for label, kw in (("default", {}), ("NAIVE", dict(rowwise_mode=R.NAIVE)),
                      ("NO_COMPILE", dict(compile_mode=M.NO_COMPILE)), ("CPU", dict(compile_mode=M.COMPILE_CPU))):
        if label == "NO_COMPILE" and (slow or not memory):
            continue
        for name in (names if memory else names[int(r.integers(3))::3]):
            calls.append(observed("rowwise " + name, label,
                                  lambda a, b, f=o[name], kw=kw: dcor.rowwise(f, a, b, **kw), (x, y), memory, timed=False))
    return {"kind": "cost", "n": n, "rows": nrows, "calls": calls}


def c19(rng, tier):
    q = tier == "quick"
    seed = lambda: int(rng.integers(2**31))
    k = 0
    for _ in range(8):
        s = seed()
        yield "every configuration seed=%d" % s, lambda s=s: job_screen(s, 40000, 5000)
    # then the long ones
    for n in ([300000, 200000, 131073, 300000, 70000, 262144, 100000, 250000] if q else [300000, 131073, 524289, 1000000] * 8):
        for _ in range(2):
            s = seed()
            yield "time n=%d seed=%d" % (n, s), lambda s=s, n=n, k=k: job_time(s, n, k, True)
            k += 1
    for n in ([30000, 20000, 30000] if q else [30000, 40000, 65537] * 4):
        s = seed()
        yield "time, not compiled n=%d seed=%d" % (n, s), lambda s=s, n=n, k=k: job_time(s, n, k, False)
        k += 1
    for n in ([100000, 40000] if q else [100000, 40000, 200000] * 3):
        s = seed()
        yield "rows n=%d seed=%d" % (n, s), lambda s=s, n=n: job_rows(s, n, 3, False)
    for n in [2000, 2001, 2048, 2222, 2500] * (1 if q else 6):
        s = seed()
        yield "rows, memory n=%d seed=%d" % (n, s), lambda s=s, n=n: job_rows(s, n, 2 + n % 3, True)
    for i in range(56 if q else 500):
        n, s = int(rng.choice([2000, 2000, 2048, 2049, 2300, 2700])), seed()
        yield "memory n=%d seed=%d" % (n, s), lambda s=s, n=n, i=i: job_memory(s, n, i)
