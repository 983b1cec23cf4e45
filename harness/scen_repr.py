"""C13: the same numbers in every representation."""
from __future__ import annotations

import fractions

import numpy as np

import scen_energy
import scen_test
from common import call, dependent, gen_sample, sample
from scen_def import outcome_ttest
from scen_pair import configs, ops

INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
FLOATS = ["float64", "float64", "float32"]


def values(r, n, d, dt, fam=None):
    """Numbers that are exact in the type and in double precision."""
    k = int(r.integers(5)) if fam is None else fam
    if dt.startswith(("int", "uint")):
        info = np.iinfo(dt)
        lo, hi = int(info.min), int(info.max)
        step = 2**12 if info.bits == 64 else 1
        lo, hi = lo // step, hi // step
        if k == 0:       # the whole range
            v = [[int(r.integers(lo, hi, endpoint=True)) * step for _ in range(d)] for _ in range(n)]
        elif k == 1:     # the extremes
            v = [[[lo, hi, hi - 1, lo + 1][int(r.integers(4))] * step for _ in range(d)] for _ in range(n)]
        elif k == 2:     # ties
            v = [[int(r.integers(0, 4)) for _ in range(d)] for _ in range(n)]
        elif k == 3:
            v = [[int(r.integers(max(lo, -50), 100)) for _ in range(d)] for _ in range(n)]
        else:            # near the upper end (integers are exact in double precision)
            top = min(hi * step, 2**53 - 1)
            v = [[top - int(r.integers(0, 30)) for _ in range(d)] for _ in range(n)]
        return np.array(v, dtype=object).astype(dt), None
    if dt == "float32":
        x = gen_sample(r, n, d, ["ints", "ties", "perm", "normal", "runs"][k])
        return np.round(x * 2**8).astype(np.float32) / np.float32(2**8), None
    fam = ["ints", "ties", "double", "normal", "cauchy"][k]
    return gen_sample(r, n, d, fam), None


LAYOUTS = ["c", "fortran", "rows", "cols", "reversed", "readonly", "rev cols", "offset", "transposed", "swapped bytes"]


def layout(a, how):
    """The same matrix with another memory layout."""
    n, d = a.shape
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "rows":
        b = np.full((3 * n, d), 77, dtype=a.dtype)
        b[1::3] = a
        return b[1::3]
    if how == "cols":
        b = np.full((n, 2 * d + 1), 77, dtype=a.dtype)
        b[:, 1::2] = a
        return b[:, 1::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "rev cols":
        return a[:, ::-1].copy()[:, ::-1]
    if how == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    if how == "offset":
        b = np.full((n + 2, d + 1), 77, dtype=a.dtype)
        b[2:, 1:] = a
        return b[2:, 1:]
    if how == "transposed":
        return a.T.copy().T
    if how == "swapped bytes":
        return a.astype(a.dtype.newbyteorder())
    return a.copy()


def represent(r, a, how, flat):
    b = layout(a, how)
    if flat and b.shape[1] == 1:
        b = b[:, 0]
        if how == "readonly":
            b.setflags(write=False)
    return b


def tofrac(a):
    return np.array([[fractions.Fraction(v) for v in row] for row in a.tolist()], dtype=object).reshape(a.shape)


def reps(r, tx, ty, x, y, count):
    """Several representations of the pair of samples."""
    for _ in range(count):
        hx, hy = (LAYOUTS[int(r.integers(len(LAYOUTS)))] for _ in range(2))
        fx, fy = bool(r.integers(2)), bool(r.integers(2))
        yield "%s/%s%s, %s/%s%s" % (tx, hx, " 1-D" if fx else "", ty, hy, " 1-D" if fy else ""), \
            represent(r, x, hx, fx), represent(r, y, hy, fy)


def pick_types(r):
    t = INTS + FLOATS
    tx = t[int(r.integers(len(t)))]
    ty = tx if r.random() < .4 else t[int(r.integers(len(t)))]
    return tx, ty


def bits(tx, ty, fast=False):
    return 10 if "float32" in (tx, ty) else 33


def as_float(a):
    return a.astype(object) if a.dtype.kind in "iu" else a.astype(float)


def job_pair(seed, n):
    r = np.random.default_rng(seed)
    tx, ty = pick_types(r)
    dx, dy = (1, 1) if r.random() < .6 else (int(r.integers(1, 4)), int(r.integers(1, 4)))
    x, y = values(r, n, dx, tx)[0], values(r, n, dy, ty)[0]
    if r.random() < .15 and tx == ty and dx == dy:
        y = x.copy()
    o = ops()
    names = list(o)
    calls = []
    for cfg, u, v in reps(r, tx, ty, x, y, 4):
        name = names[int(r.integers(9))]
        if name.startswith("u") and n <= 3:
            name = "dcov_sqr"
        cs = configs() if dx == dy == 1 and n > 3 else [("default", {}), ("naive", {"method": "naive"})]
        if "float32" in (tx, ty) or "swapped" in cfg:      # the compiled code can refuse it if requested explicitly
            cs = [c for c in cs if "cpu" not in c[0]]
        for _ in range(2):
            cn, kw = cs[int(r.integers(len(cs)))]
            calls.append({"op": name, "cfg": "%s; %s" % (cfg, cn), "out": call(o[name], u, v, **kw)})
    if "float32" in (tx, ty):
        # correlations divide by variances that may be small
        calls = [c for c in calls if c["op"] in ("dcov_sqr", "dcov", "udcov_sqr")]
    return {"kind": "pair", "p": 1, "q": 1, "tb": bits(tx, ty), "x": sample(as_float(x)), "y": sample(as_float(y)),
            "calls": calls}


def job_exp(seed, n):
    """Exponents other than 1, and float32 correlations through well conditioned samples."""
    r = np.random.default_rng(seed)
    tx, ty = pick_types(r)
    p, q = [(1, 2), (3, 2), (1, 4), (7, 4)][int(r.integers(4))]
    small = lambda t: t if t in ("float64", "float32") else t
    x, y = values(r, n, int(r.integers(1, 3)), small(tx), 3)[0], values(r, n, int(r.integers(1, 3)), small(ty), 3)[0]
    o = ops()
    calls = []
    for cfg, u, v in reps(r, tx, ty, x, y, 3):
        name = ["dcov_sqr", "dcov", "udcov_sqr"][int(r.integers(3))]
        calls.append({"op": name, "cfg": "%s; exponent=%s/%s" % (cfg, p, q), "out": call(o[name], u, v, exponent=p / q)})
    return {"kind": "pair", "p": p, "q": q, "tb": bits(tx, ty), "x": sample(as_float(x), q), "y": sample(as_float(y), q),
            "calls": calls}


def job_object(seed, n):
    """Fraction and Python integers, with the naive method."""
    r = np.random.default_rng(seed)
    d = int(r.choice([1, 1, 2]))
    x = np.round(gen_sample(r, n, d, ["ints", "ties", "normal", "perm"][int(r.integers(4))]) * 8) / 8
    y = np.round(gen_sample(r, n, 1, ["ints", "ties", "normal", "perm"][int(r.integers(4))]) * 8) / 8
    if r.random() < .3:
        x, y = x * 2.0**34, y * 2.0**33
    how = int(r.integers(3))
    if how == 0:
        ax, ay = tofrac(x), tofrac(y)
    elif how == 1:
        ax, ay = (np.array([[int(v * 8) for v in row] for row in a.tolist()], dtype=object) for a in (x, y))
        x, y = x * 8, y * 8
    else:
        ax, ay = tofrac(x), y
    calls = []
    o = ops()
    for _ in range(4):
        name = list(o)[int(r.integers(9))]
        if name.startswith("u") and n <= 3:
            continue
        u = ax[:, 0] if d == 1 and r.random() < .5 else ax
        v = ay[:, 0] if r.random() < .5 else ay
        calls.append({"op": name, "cfg": "naive, objects %d" % how, "out": call(o[name], u, v, method="naive")})
    return {"kind": "pair", "p": 1, "q": 1, "tb": 33, "x": sample(x), "y": sample(y), "calls": calls}


def job_strict(seed, n):
    """Arrays of another namespace of the array API standard."""
    import array_api_strict as aas
    import dcor
    r = np.random.default_rng(seed)
    fam = ["ints", "ties", "double", "normal"]
    d = int(r.choice([1, 2]))
    x, y = gen_sample(r, n, d, fam[int(r.integers(4))]), gen_sample(r, n + 1, d, fam[int(r.integers(4))])
    y0 = y[:-1]
    w = gen_sample(r, n, 1, fam[int(r.integers(4))])
    ax, ay, ay0, aw = (aas.asarray(v.copy()) for v in (x, y, y0, w))
    p, q = (1, 1) if r.random() < .6 else (1, 2)
    kw = {} if p == q else {"exponent": p / q}
    o = ops()
    groups = []
    calls = []
    for name in o:
        if name.startswith("u") and n <= 3:
            continue
        k = int(r.integers(3))
        m = [{"method": "naive"}, {"method": "naive"}, {}][k if d > 1 else min(k, 1)]
        calls.append({"op": name, "cfg": "strict %s" % m, "ns": "strict", "out": call(o[name], ax, ay0, **kw, **m)})
    groups.append({"kind": "pair", "p": p, "q": q, "tb": 33, "x": sample(x, q), "y": sample(y0, q), "calls": calls})
    calls = []
    for est in "VU":
        for op, f in (("energy", dcor.energy_distance), ("energy_test_statistic", dcor.homogeneity.energy_test_statistic)):
            calls.append({"op": op, "cfg": "strict " + est, "est": est, "avg": "mean", "ns": "strict",
                          "out": call(f, ax, ay, estimation_stat=est, **kw)})
    groups.append({"kind": "energy", "p": p, "q": q, "tb": 36, "x": sample(x, q), "y": sample(y, q), "calls": calls})
    groups.append({"kind": "ksample", "p": p, "q": q, "tb": 36, "pool": scen_energy.pooled([x, y, y0], q),
                   "sizes": [n, n + 1, n], "calls": [
                       {"op": "energy_test", "cfg": "strict", "est": "V", "avg": "mean", "ns": "strict",
                        "out": call(lambda: dcor.homogeneity.energy_test(ax, ay, ay0, num_resamples=2, random_state=1, **kw).statistic)}]})
    e = p / q
    groups.append({"kind": "dist", "x": sample(x, q), "y": sample(y, q), "two": True, "p": p, "q": q, "tb": 36,
                   "calls": [{"cfg": "strict", "ns": "strict",
                              "out": call(dcor.distances.pairwise_distances, ax, ay, exponent=e)}]})
    return {"kind": "many", "groups": groups}


def job_energy(seed, n, m):
    import dcor
    r = np.random.default_rng(seed)
    tx, ty = pick_types(r)
    d = int(r.choice([1, 1, 2]))
    k = int(r.integers(5))
    x, y = values(r, n, d, tx, k)[0], values(r, m, d, ty, k)[0]
    # a common scale, so that the tolerance means something
    groups, calls = [], []
    tz = pick_types(r)[0]
    z = values(r, 3, d, tz, k)[0]
    b32 = 10 if "float32" in (tx, ty) else 36
    for cfg, u, v in reps(r, tx, ty, x, y, 3):
        if u.ndim != v.ndim:
            u, v = u.reshape(n, d), v.reshape(m, d)
        est = "UV"[int(r.integers(2))] if min(n, m) > 1 else "V"
        calls.append({"op": "energy", "cfg": "%s %s" % (cfg, est), "est": est, "avg": "mean",
                      "out": call(dcor.energy_distance, u, v, estimation_stat=est)})
        calls.append({"op": "energy_test_statistic", "cfg": "%s %s" % (cfg, est), "est": est, "avg": "mean",
                      "out": call(dcor.homogeneity.energy_test_statistic, u, v, estimation_stat=est)})
        calls.append({"op": "energy_test", "cfg": "%s %s" % (cfg, est), "est": est, "avg": "mean",
                      "out": call(lambda: dcor.homogeneity.energy_test(u, v, estimation_stat=est, num_resamples=1,
                                                                       random_state=3).statistic)})
        w = represent(r, z, LAYOUTS[int(r.integers(len(LAYOUTS)))], u.ndim == 1)
        three = [(u, x), (v, y), (w, z)]
        three = [three[int(i)] for i in r.permutation(3)]
        groups.append({"kind": "ksample", "p": 1, "q": 1, "tb": 10 if tz == "float32" else b32, "sizes": [len(t) for _, t in three],
                       "pool": scen_energy.pooled([as_float(t) for _, t in three], 1), "calls": [
                           {"op": "energy_test", "cfg": cfg + ", " + tz, "est": "V", "avg": "mean", "out": call(
                               lambda: dcor.homogeneity.energy_test(*[t for t, _ in three], num_resamples=1, random_state=3).statistic)}]})
    groups.append({"kind": "energy", "p": 1, "q": 1, "tb": b32, "x": sample(as_float(x)), "y": sample(as_float(y)), "calls": calls})
    return {"kind": "many", "groups": groups}


def job_other(seed, n):
    """Partial measures, tests, affine invariance and rowwise."""
    import dcor
    r = np.random.default_rng(seed)
    t = INTS + ["float64"]
    tx, ty, tz = (t[int(r.integers(len(t)))] for _ in range(3))
    k = int(r.choice([0, 2, 3, 3]))
    x, y, z = values(r, n, 1, tx, k)[0], values(r, n, 1, ty, k)[0], values(r, n, 1, tz, k)[0]
    if k == 3 and r.random() < .5:
        x = values(r, n, 2, tx, k)[0]
    X, Y, Z = as_float(x), as_float(y), as_float(z)
    D = dcor.independence
    groups = []
    for cfg, u, v in reps(r, tx, ty, x, y, 2):
        w = represent(r, z, LAYOUTS[int(r.integers(len(LAYOUTS)))], bool(r.integers(2)))
        cfg += ", " + tz
        groups.append({"kind": "partial", "x": sample(X), "y": sample(Y), "z": sample(Z), "tb": 33, "same": False, "calls": [
            {"op": "pdcov", "cfg": cfg, "out": call(dcor.partial_distance_covariance, u, v, w)},
            {"op": "pdcor", "cfg": cfg, "out": call(dcor.partial_distance_correlation, u, v, w)}]})
        nr, sd = int(r.choice([0, 5])), int(r.integers(99))
        perms = scen_test.draw(np.random.RandomState(sd), n, nr)
        base = {"kind": "test", "judge": "both", "p": 1, "q": 1, "tb": 33, "exact": False, "x": sample(X), "y": sample(Y),
                "z": sample(Z), "perms": perms}
        groups.append(dict(base, test="dcov", calls=[{"cfg": cfg, "out": scen_test.outcome_test(
            lambda: D.distance_covariance_test(u, v, num_resamples=nr, random_state=sd))}]))
        groups.append(dict(base, test="pdcov", calls=[{"cfg": cfg, "out": scen_test.outcome_test(
            lambda: D.partial_distance_covariance_test(u, v, w, num_resamples=nr, random_state=sd))}]))
        groups.append({"kind": "ttest", "x": sample(X), "y": sample(Y), "p": 1, "q": 1, "tb": 33, "calls": [
            {"op": "t_statistic", "cfg": cfg, "out": call(D.distance_correlation_t_statistic, u, v)},
            {"op": "t_test", "cfg": cfg, "out": outcome_ttest(lambda: D.distance_correlation_t_test(u, v))}]})
        if k == 3:
            groups.append({"kind": "aff", "x": sample(X), "y": sample(Y), "tb": 20, "calls": [
                {"op": "af_inv_sqr", "cfg": cfg, "out": call(dcor.distance_correlation_af_inv_sqr, u, v)}]})
        name = ["dcov_sqr", "dcov", "udcov_sqr", "dcor_sqr", "dcor", "udcor_sqr"][int(r.integers(6))]
        groups.append({"kind": "rowwise", "rows": [{"x": sample(X), "y": sample(Y)}], "p": 1, "q": 1, "tb": 33, "calls": [
            {"op": name, "cfg": cfg, "expect": "value", "out": call(dcor.rowwise, ops()[name], u[None], v[None])}]})
    return {"kind": "many", "groups": groups}


def c13(rng, tier):
    quick = tier == "quick"
    k = 1 if quick else 12
    seed = lambda: int(rng.integers(2**31))
    for _ in range(40 * k):
        for n in (2, 4, 5, 6, 7, 8, 9, 12, 16, 17, 30):
            s = seed()
            yield "pair n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pair(s, n)
        for n in (4, 7, 10):
            s = seed()
            yield "exponent n=%d seed=%d" % (n, s), lambda s=s, n=n: job_exp(s, n)
        for n in (3, 4, 6, 9):
            s = seed()
            yield "objects n=%d seed=%d" % (n, s), lambda s=s, n=n: job_object(s, n)
        for n in (2, 4, 7, 12):
            s = seed()
            yield "strict n=%d seed=%d" % (n, s), lambda s=s, n=n: job_strict(s, n)
        for n, m in ((1, 2), (3, 3), (4, 7), (10, 6)):
            s = seed()
            yield "energy n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_energy(s, n, m)
        for n in (4, 5, 8, 13):
            s = seed()
            yield "others n=%d seed=%d" % (n, s), lambda s=s, n=n: job_other(s, n)
    for n in (64, 100, 129, 200, 257, 300) * k:
        s = seed()
        yield "pair n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pair(s, n)
