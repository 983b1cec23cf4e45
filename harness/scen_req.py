"""C11, C14: every kind of request."""
from __future__ import annotations

import fractions
import functools
import itertools

import numpy as np

from common import FAMS, call, dim, gen_sample, sample, whole
from scen_pair import int_line, j_line, ops, tally


def by_data(reqs):
    key = lambda q: (q["kind"], q["p"], q["q"])
    return [(k, list(v)) for k, v in itertools.groupby(sorted(reqs, key=lambda q: str(key(q))), key=key)]


def method(r, name, enum_only=False):
    import dcor
    D = dcor.DistanceCovarianceMethod
    if name == "nonsense":
        return ["nonsense", "", "fast", "avl2", "av", "naive ", "u_statistic", "merge-sort"][int(r.integers(8))]
    e = {"auto": D.AUTO, "naive": D.NAIVE, "avl": D.AVL, "mergesort": D.MERGESORT}[name]
    if enum_only:
        return e
    return [e, name, name.upper(), name.capitalize(), e][int(r.integers(5))]


def mode(name):
    import dcor
    M = dcor.CompileMode
    return {"auto": M.AUTO, "no_compile": M.NO_COMPILE, "cpu": M.COMPILE_CPU, "parallel": M.COMPILE_PARALLEL}[name]


def cut(r, n):
    """Fewer than n observations."""
    return int(r.choice([n - 1, n - 1, max(1, n - 2), max(1, n // 2), 1, min(2, n - 1)]))


def data(r, kind, n=None, q=1):
    """(x, y) as given, and the samples (n, d) they stand for."""
    n = n or int(r.integers(4, 14))
    if kind == "tiny":
        n = int(r.integers(2, 4))
    dx = 2 if kind in ("multi_x", "multi") else 1
    dy = 3 if kind in ("multi_y", "multi") else 1
    if kind == "strict" and r.random() < .5:
        dx = 2
    fam = lambda: FAMS[int(r.integers(len(FAMS)))]
    if kind == "int":
        x, y = r.integers(-50, 50, (n, 1)), r.integers(0, 9, (n, 1))
        return (x[:, 0], y[:, 0] if r.random() < .5 else y), (x, y)
    x, y = gen_sample(r, n, dx, fam()), gen_sample(r, n, dy, fam())
    if q > 64:
        x, y = whole(r, x), whole(r, y)
    if kind == "short_y":
        y = y[:cut(r, n)]
        return (x[:, 0], y[:, 0]) if r.random() < .5 else (x, y), (x, y)
    if kind == "short_x":
        x = x[:cut(r, n)]
        return (x[:, 0], y[:, 0]) if r.random() < .5 else (x, y), (x, y)
    if kind == "strict":
        import array_api_strict as aas
        return (aas.asarray(x), aas.asarray(y)), (x, y)
    if kind == "1d" or (kind == "tiny" and r.random() < .5):
        return (x[:, 0], y[:, 0]), (x, y)
    if kind == "mixed":
        return ((x[:, 0], y) if r.random() < .5 else (x, y[:, 0])), (x, y)
    if kind == "multi_x" and r.random() < .5:
        return (x, y[:, 0]), (x, y)
    if kind == "multi_y" and r.random() < .5:
        return (x[:, 0], y), (x, y)
    return (x, y), (x, y)


def job_requests(seed, key, reqs, names):
    r = np.random.default_rng(seed)
    kind, p, q = key
    (ax, ay), (x, y) = data(r, kind, q=q)
    o = ops()
    e = p / q if q > 1 else p
    calls = []
    n = x.shape[0]
    for req in reqs:
        for name in names:
            if name.startswith("u") and n <= 3:
                continue
            m = method(r, req["meth"])
            kw = dict(method=m, compile_mode=mode(req["mode"]))
            if e != 1 or r.random() < .5:
                kw["exponent"] = e
            if req["meth"] == "auto" and r.random() < .3:
                del kw["method"]
            if req["mode"] == "auto" and r.random() < .3:
                del kw["compile_mode"]
            c = {"op": name, "cfg": "%s, method=%s mode=%s exponent=%s/%s" % (kind, m, req["mode"], p, q),
                 "req": {k: req[k] for k in ("meth", "mode", "kind", "p", "q")}, "out": call(o[name], ax, ay, **kw)}
            if kind == "strict":
                c["ns"] = "strict"
            calls.append(c)
    return {"kind": "requests", "p": p, "q": q, "tb": 33, "unequal": kind in ("short_x", "short_y"),
            "x": sample(x, q), "y": sample(y, q), "calls": calls}


def job_raise(seed):
    import dcor
    r = np.random.default_rng(seed)
    n = int(r.choice([5, 6, 7, 8, 9, 10, 12, 16, 17, 30, 64, 100]))
    d = int(r.choice([1, 1, 2, 3]))
    x, y, z = (gen_sample(r, n, d, "double") for _ in range(3))
    short = y[:cut(r, n)]
    if r.random() < .25:        # a long one
        short = np.concatenate([y, y[:int(r.integers(1, n + 1))]])
    if d == 1 and r.random() < .5:
        short = short[:, 0]
    ind, hom = dcor.independence, dcor.homogeneity
    calls = []

    def add(expect, what, f, *a, **k):
        calls.append({"expect": expect, "what": what, "out": call(lambda: (f(*a, **k), 0.0)[1])})
    for nm, f, args in [
            ("partial_distance_covariance, short y", dcor.partial_distance_covariance, (x, short, z)),
            ("partial_distance_covariance, short z", dcor.partial_distance_covariance, (x, y, short)),
            ("partial_distance_correlation, short x", dcor.partial_distance_correlation, (short, y, z)),
            ("partial_distance_correlation, short z", dcor.partial_distance_correlation, (x, y, short)),
            ("distance_covariance_test", ind.distance_covariance_test, (x, short)),
            ("distance_covariance_test, short x", ind.distance_covariance_test, (short, x)),
            ("partial_distance_covariance_test, short y", ind.partial_distance_covariance_test, (x, short, z)),
            ("partial_distance_covariance_test, short z", ind.partial_distance_covariance_test, (x, y, short)),
            ("distance_correlation_t_statistic", ind.distance_correlation_t_statistic, (x, short)),
            ("distance_correlation_t_test", ind.distance_correlation_t_test, (short, y)),
            ("distance_correlation_af_inv", dcor.distance_correlation_af_inv, (x, short)),
            ("distance_correlation_af_inv_sqr", dcor.distance_correlation_af_inv_sqr, (short, y))]:
        add("raise", nm + " with different numbers of observations", f, *args)
    C = dcor.CompileMode
    mu, mv, ux, uy = (gen_sample(r, n, k, "double") for k in (2, int(r.integers(1, 3)), 1, 1))
    if r.random() < .5:
        ux, uy = ux[:, 0], uy[:, 0]
    for nm, f in [("distance_correlation_af_inv", dcor.distance_correlation_af_inv),
                  ("distance_correlation_af_inv_sqr", dcor.distance_correlation_af_inv_sqr)]:
        for m in ["avl", "AVL", "Mergesort", dcor.DistanceCovarianceMethod.AVL, dcor.DistanceCovarianceMethod.MERGESORT]:
            add("raise", "%s(method=%s) of multivariate samples" % (nm, m), f, mu, mv, method=m)
            add("raise", "%s(method=%s, swapped) of multivariate samples" % (nm, m), f, mv, mu, method=m)
            add("value", "%s(method=%s) of univariate samples" % (nm, m), f, ux, uy, method=m)
            add("raise", "%s(method=%s, COMPILE_PARALLEL)" % (nm, m), f, ux, uy, method=m, compile_mode=C.COMPILE_PARALLEL)
        for m in ["", "fast", "naive ", "merge_sort", "AUTO?"]:
            add("raise", "%s(method=%r)" % (nm, m), f, ux, uy, method=m)
        for c in (C.COMPILE_CPU, C.COMPILE_PARALLEL):
            add("raise", "%s(method=naive, %s)" % (nm, c), f, ux, uy, method="naive", compile_mode=c)
            add("raise", "%s(%s) of multivariate samples" % (nm, c), f, mu, mv, compile_mode=c)
        add("value", "%s(method=naive, NO_COMPILE)" % nm, f, mu, mv, method="naive", compile_mode=C.NO_COMPILE)
    # samples in spaces of different dimension, for the functions of two samples of points
    import array_api_strict as aas
    from fractions import Fraction
    for k, conv in [("float", lambda a: a), ("longdouble", lambda a: a.astype(np.longdouble)), ("float32", lambda a: a.astype(np.float32)),
                    ("object", lambda a: np.array([[Fraction(int(16 * v), 16) for v in row] for row in a], dtype=object)), ("strict", aas.asarray)]:
        da, db = (1, int(r.integers(2, 5))) if r.random() < .6 else (int(r.integers(2, 5)), 5)
        a, b = conv(gen_sample(r, n, da, "double")), conv(gen_sample(r, int(r.choice([n, n + 2, 4])), db, "double"))
        if r.random() < .5:
            a, b = b, a
        for nm, f in [("pairwise_distances", dcor.distances.pairwise_distances), ("energy_distance", dcor.energy_distance),
                      ("energy_test_statistic", hom.energy_test_statistic), ("energy_test", hom.energy_test)]:
            add("raise", "%s of %s samples in %d and %d dimensions" % (nm, k, a.shape[1], b.shape[1]), f, a, b)
            add("value", "%s of %s samples in %d dimensions" % (nm, k, a.shape[1]), f, a, a)
    for s in ["W", "", "uv", "u-statistic", "statistic", "mean", "U ", "V_STAT"]:
        add("raise", "energy_distance(estimation_stat=%r)" % s, dcor.energy_distance, x, y, estimation_stat=s)
        add("raise", "energy_test_statistic(estimation_stat=%r)" % s, hom.energy_test_statistic, x, y, estimation_stat=s)
        add("raise", "energy_test(estimation_stat=%r)" % s, hom.energy_test, x, y, z, estimation_stat=s)
    for e, ex in [(2, "warn"), (2.5, "warn"), (2.0000001, "warn"), (3, "warn"), (1.9999999, "silent"), (1e-6, "silent"),
                  (.5, "silent"), (1, "silent"), (1.5, "silent"), (0, "warn"), (-1, "warn"), (-.5, "warn"), (-3, "warn")]:
        t = "(exponent=%s)" % e
        add(ex, "energy_distance" + t, dcor.energy_distance, x, y, exponent=e)
        add(ex, "energy_test_statistic" + t, hom.energy_test_statistic, x, y, exponent=e)
        add(ex, "energy_test" + t, hom.energy_test, x, y, exponent=e)
        add(ex, "distance_covariance_test" + t, ind.distance_covariance_test, x, y, exponent=e)
        add(ex, "partial_distance_covariance_test" + t, ind.partial_distance_covariance_test, x, y, z, exponent=e)
        for name, f in ops().items():
            add(ex, name + t, f, x, y, exponent=e)
    for name, f in ops().items():
        for m in ("avl", "mergesort"):
            e = float([1.0001, 1 + 1e-6, 1 - 1e-6, 1 + 1e-9, np.nextafter(1, 2), .9999, 0, 2, -1, 1.5][int(r.integers(10))])
            add("raise", "%s(exponent=%r, method=%s)" % (name, e, m), f, x[:, 0], y[:, 0], exponent=e, method=m)
            add("value", "%s(exponent=1.0, method=%s)" % (name, m), f, x[:, 0], y[:, 0], exponent=1.0, method=m)
    return {"kind": "raise", "calls": calls}


OPS = ["dcov_sqr", "dcov", "udcov_sqr", "dcor_sqr", "dcor", "udcor_sqr", "stats_sqr", "stats", "ustats_sqr"]


def c14(rng, tier, gen):
    quick = tier == "quick"
    groups = by_data(gen["requests"])
    for rep in range(3 if quick else 30):
        for key, reqs in groups:
            s = int(rng.integers(2**31))
            k = int(rng.integers(9))
            names = OPS if rep == 0 else [OPS[k], OPS[(k + 4) % 9]]
            yield "%s exponent=%d/%d seed=%d" % (key + (s,)), lambda s=s, key=key, reqs=reqs, names=names: job_requests(s, key, reqs, names)
    for _ in range(35 if quick else 200):
        s = int(rng.integers(2**31))
        yield "raise/warn seed=%d" % s, lambda s=s: job_raise(s)


# ------------------------------------------------------------------ rowwise
ROPS = ["dcov_sqr", "dcov", "udcov_sqr", "dcor_sqr", "dcor", "udcor_sqr"]


def user(x, y):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    x = x if x.ndim == 1 else x[:, 0]
    y = y if y.ndim == 1 else y[:, 0]
    return float(np.sum(x * y))


def user_opt(x, y, *, ka=1, kb=0):
    return ka * user(x, y) + kb


class User:
    """A callable that is not a function."""

    def __call__(self, x, y, **kw):
        return np.float64(user_opt(x, y, **kw))


def containers(r, rows, equal=False):
    """The rows as a list, a tuple or an array."""
    if equal and r.random() < .6:
        return np.broadcast_to(rows[0], (len(rows),) + rows[0].shape)
    k = int(r.integers(5))
    if k == 0:
        return list(rows)
    a = np.stack(rows)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        return a[::-1].copy()[::-1]
    if k == 3:
        b = np.repeat(a, 2, axis=1)
        return b[:, ::2]
    return a


def job_rows(seed, key, reqs, names, nrows, size=None):
    import dcor
    import numba
    r = np.random.default_rng(seed)
    kind, p, q = key
    e = p / q if q > 1 else p
    n = int(r.choice([4, 5, 6, 7, 8, 9, 13, 16, 17, 30] + ([64, 100, 129] if nrows < 6 else [])))
    if 4 <= nrows <= 64 and r.random() < .2:
        n = nrows           # as many rows as numbers in them
    if kind == "tiny":
        n = int(r.integers(2, 4))
    n = size or n
    # rows of the same shape
    dx = 2 if kind in ("multi_x", "multi") else 1
    dy = 3 if kind in ("multi_y", "multi") else 1
    xs, ys = [], []
    for _ in range(nrows):
        if kind == "int":
            x, y = r.integers(-50, 50, (n, 1)), r.integers(0, 9, (n, 1))
        else:
            x, y = (gen_sample(r, n, d, FAMS[int(r.integers(len(FAMS)))]) for d in (dx, dy))
        if q > 64:
            x, y = whole(r, x), whole(r, y)
        z = r.random()
        if z < .12 and q < 64:
            x = np.full_like(x, [3, 7][int(r.integers(2))]) if kind == "int" else np.full_like(x, [0.1, 5.0, -1 / 3][int(r.integers(3))])
        elif z < .2:
            y = np.full_like(y, 4)
        elif z < .3 and dx == dy:
            y = x.copy()
        if kind != "int" and q < 64 and r.random() < .12:      # other units
            k = 2.0 ** int(r.choice([-70, -40, -32, -24, 30, 60]))
            x, y = x * k, y * k
        xs.append(x)
        ys.append(y)
    one = ""
    if nrows > 1 and r.random() < .15:      # one sample against many
        one = "xy"[int(r.integers(2))]
        (xs if one == "x" else ys)[:] = [(xs if one == "x" else ys)[0]] * nrows
    flatx = kind in ("1d", "int") or (kind == "tiny" and r.random() < .5)
    flaty = flatx or kind == "mixed"
    if kind == "mixed" and r.random() < .5:
        flatx, flaty = True, False
    ax = [x[:, 0] for x in xs] if flatx else xs
    ay = [y[:, 0] for y in ys] if flaty else ys
    o = ops()
    R = dcor.RowwiseMode
    rm = {"auto": R.AUTO, "naive": R.NAIVE, "optimized": R.OPTIMIZED}
    calls = []
    old = numba.get_num_threads()
    for req in reqs:
        cx, cy = containers(r, ax, one == "x"), containers(r, ay, one == "y")
        nt = int(r.integers(1, 5))
        numba.set_num_threads(nt)
        base = {k: req[k] for k in ("rmode", "fn", "meth", "mode", "kind", "p", "q")}
        kw = {} if req["rmode"] == "auto" and r.random() < .5 else {"rowwise_mode": rm[req["rmode"]]}
        if req["fn"] == "user":
            c = {"op": "user", "cfg": "%s %s" % (kind, req["rmode"]), "req": base, "out": call(dcor.rowwise, user, cx, cy, **kw)}
            calls.append(c)
            ka, kb = int(r.integers(-9, 10)), int(r.integers(-9, 10))
            f = [user_opt, User(), functools.partial(user_opt), lambda a, b, **k: user_opt(a, b, **k)][int(r.integers(4))]
            opts = [{}, {"ka": ka}, {"kb": kb}, {"ka": ka, "kb": kb}][int(r.integers(4))]
            calls.append(dict({"op": "user", "cfg": "%s %s %s" % (kind, req["rmode"], opts), "req": base,
                               "out": call(dcor.rowwise, f, cx, cy, **kw, **opts)}, **opts))
            continue
        for name in names:
            if name.startswith("u") and n <= 3:
                continue
            k2 = dict(kw)
            m = method(r, req["meth"], enum_only=req["rmode"] == "optimized" or req["mode"] == "parallel")
            k2["method"], k2["compile_mode"] = m, mode(req["mode"])
            if e != 1:
                k2["exponent"] = e
            if req["meth"] == "auto" and r.random() < .4:
                del k2["method"]
            if req["mode"] == "auto" and r.random() < .4:
                del k2["compile_mode"]
            calls.append({"op": name, "cfg": "%s %s method=%s mode=%s exponent=%s/%s threads=%d" % (
                kind, req["rmode"], m, req["mode"], p, q, nt), "req": base, "out": call(dcor.rowwise, o[name], cx, cy, **k2)})
    numba.set_num_threads(old)
    return {"kind": "rowwise", "rows": [{"x": sample(x, q), "y": sample(y, q)} for x, y in zip(xs, ys)],
            "p": p, "q": q, "tb": 33, "calls": calls}


def per_row(out, k):
    """The outcome of every row."""
    if out["k"] == "vec" and len(out["v"]) == k:
        return [dict(out, k="val", v=v) for v in out["v"]]
    return [out if out["k"] == "err" else dict(out, k="not a vector of %d" % k)] * k


def job_functions(seed, nrows):
    """Other functions of the package."""
    import dcor
    r = np.random.default_rng(seed)
    R = dcor.RowwiseMode
    kw = [{}, {}, {"rowwise_mode": R.AUTO}, {"rowwise_mode": R.NAIVE}][int(r.integers(4))]
    fam = lambda: FAMS[int(r.integers(len(FAMS)))]
    groups = []
    # energy: the samples may have different sizes
    n, m, d = int(r.integers(2, 14)), int(r.integers(2, 14)), dim(r, 4)
    xs, ys = [gen_sample(r, n, d, fam()) for _ in range(nrows)], [gen_sample(r, m, d, fam()) for _ in range(nrows)]
    if d == 1 and r.random() < .6:
        ax, ay = containers(r, [x[:, 0] for x in xs]), containers(r, [y[:, 0] for y in ys])
    else:
        ax, ay = containers(r, xs), containers(r, ys)
    p, q = [(1, 1), (1, 2), (3, 2)][int(r.integers(3))]
    est = "UV"[int(r.integers(2))]
    for op, f in (("energy", dcor.energy_distance), ("energy_test_statistic", dcor.homogeneity.energy_test_statistic)):
        out = call(dcor.rowwise, f, ax, ay, exponent=p / q, estimation_stat=est, **kw)
        for i, o in enumerate(per_row(out, nrows)):
            groups.append({"kind": "energy", "p": p, "q": q, "tb": 36, "x": sample(xs[i], q), "y": sample(ys[i], q), "calls": [
                {"op": op, "cfg": "rowwise %s row %d of %d" % (est, i, nrows), "est": est, "avg": "mean", "out": o}]})
    # t statistic and affinely invariant correlation
    n, dx, dy = int(r.integers(6, 16)), int(r.integers(1, 3)), int(r.integers(1, 3))
    xs = [r.integers(-30, 31, (n, dx)).astype(float) for _ in range(nrows)]
    ys = [r.integers(-30, 31, (n, dy)).astype(float) for _ in range(nrows)]
    ax, ay = containers(r, xs), containers(r, ys)
    outs = [("ttest", "t_statistic", dcor.independence.distance_correlation_t_statistic, 33),
            ("aff", "af_inv", dcor.distance_correlation_af_inv, 24), ("aff", "af_inv_sqr", dcor.distance_correlation_af_inv_sqr, 24)]
    for kind, op, f, tb in outs:
        out = call(dcor.rowwise, f, ax, ay, **kw)
        for i, o in enumerate(per_row(out, nrows)):
            groups.append({"kind": kind, "p": 1, "q": 1, "tb": tb, "x": sample(xs[i]), "y": sample(ys[i]), "calls": [
                {"op": op, "cfg": "rowwise row %d of %d" % (i, nrows), "out": o}]})
    return {"kind": "many", "groups": groups}


ROW_TYPES = ["float32", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "Fraction", "object", "longdouble"]


def job_types(seed, nrows):
    """Rows of other types of numbers."""
    import dcor
    r = np.random.default_rng(seed)
    n = int(r.choice([4, 5, 7, 8, 12, 17] + [max(4, nrows)]))
    t = ROW_TYPES[int(r.integers(len(ROW_TYPES)))]
    u = t if r.random() < .6 or t in ("Fraction", "object", "longdouble") else ROW_TYPES[int(r.integers(9))]
    dx, dy = (1, 1) if r.random() < .7 else (int(r.integers(1, 3)), int(r.integers(1, 3)))

    wide = all(v[-2:] in ("32", "64") and v[0] in "iu" for v in (t, u)) and r.random() < .6

    def one(d):
        a = r.integers(0, int(r.choice([2**31, 2**32]) if "uint32" in (t, u) else 2**40) if wide and {t, u} <= {
            "uint32", "int64", "uint64"} else (2**31 if wide else int(r.choice([3, 120]))), (n, d))
        return np.full_like(a, 7) if r.random() < .1 else a

    def conv(rows, ty):
        if ty == "Fraction":
            return [np.array([[fractions.Fraction(int(v), 1) for v in row] for row in a], dtype=object) for a in rows]
        return [a.astype(ty) for a in rows]
    xs, ys = [one(dx) for _ in range(nrows)], [one(dy) for _ in range(nrows)]
    fx, fy = conv(xs, t), conv(ys, u)
    if dx == 1 and r.random() < .5:
        fx = [a[:, 0] for a in fx]
    if dy == 1 and r.random() < .5:
        fy = [a[:, 0] for a in fy]
    ax, ay = containers(r, fx), containers(r, fy)
    R = dcor.RowwiseMode
    f32 = "float32" in (t, u)
    calls = []
    for name in ROPS:
        if f32 and "cor" in name:
            continue
        for kw in ({}, {"rowwise_mode": R.NAIVE}, {"method": "naive"}):
            if t in ("Fraction", "object") and "method" not in kw and r.random() < .5:
                kw = dict(kw, method="naive")
            calls.append({"op": name, "cfg": "%s,%s %s" % (t, u, kw), "expect": "value", "req": {}, "out": call(
                dcor.rowwise, ops()[name], ax, ay, **kw)})
    return {"kind": "rowwise", "rows": [{"x": sample(x), "y": sample(y)} for x, y in zip(xs, ys)], "p": 1, "q": 1,
            "tb": 10 if f32 else 33, "calls": calls}


def job_long(seed, n, nrows):
    """Rows of many numbers."""
    import dcor
    r = np.random.default_rng(seed)
    xs, ys = [int_line(r, n) for _ in range(nrows)], [int_line(r, n) for _ in range(nrows)]
    ys = [x if r.random() < .2 else y for x, y in zip(xs, ys)]
    fx, fy = [x.astype(float) for x in xs], [y.astype(float) for y in ys]
    if r.random() < .3:
        fx = [a[:, None] for a in fx]
    ax, ay = containers(r, fx), containers(r, fy)
    M = dcor.CompileMode
    calls = []
    for name in ROPS:
        m = [{}, {"compile_mode": M.COMPILE_CPU}, {"compile_mode": M.COMPILE_PARALLEL}, {"rowwise_mode": dcor.RowwiseMode.NAIVE},
             {"method": "mergesort"}, {"rowwise_mode": dcor.RowwiseMode.OPTIMIZED}][int(r.integers(6))]
        calls.append({"op": name, "cfg": "long rows %s" % m, "expect": "value", "req": {}, "out": call(
            dcor.rowwise, ops()[name], ax, ay, **m)})
    return {"kind": "rowwise", "line": True, "rows": [{"x": j_line(x, 0), "y": j_line(y, 0)} for x, y in zip(xs, ys)],
            "p": 1, "q": 1, "tb": 30, "calls": calls}


def job_huge(seed, n, nrows, names):
    """Rows of very many numbers, few of them different."""
    import dcor
    r = np.random.default_rng(seed)
    rows = [tally(r, n) for _ in range(nrows)]
    ax, ay = np.stack([a[1] for a in rows]), np.stack([a[2] for a in rows])
    M = dcor.CompileMode
    calls = []
    for name in names:
        m = [{}, {"compile_mode": M.COMPILE_CPU}, {"compile_mode": M.COMPILE_PARALLEL}][int(r.integers(3))]
        calls.append({"op": name, "cfg": "huge rows %s" % m, "expect": "value", "req": {}, "out": call(
            dcor.rowwise, ops()[name], ax, ay, **m)})
    return {"kind": "rowwise", "line": True, "rows": [a[0] for a in rows], "p": 1, "q": 1, "tb": 30, "calls": calls}


def c11(rng, tier, gen):
    quick = tier == "quick"
    for n, k in [(50, 7), (700, 5), (5000, 3), (40000, 4), (130000, 4)] * (2 if quick else 12):
        s = int(rng.integers(2**31))
        yield "huge rows n=%d rows=%d seed=%d" % (n, k, s), lambda s=s, n=n, k=k: job_huge(s, n, k, ROPS)
    # more than 2^21 numbers: their cube does not fit in 64 bits
    s = int(rng.integers(2**31))
    yield "huge rows n=%d rows=1 seed=%d" % (2**21 + 9, s), lambda s=s: job_huge(s, 2**21 + 9, 1, ["dcov_sqr", "udcov_sqr"])
    for _ in range(70 if quick else 700):
        s, k = int(rng.integers(2**31)), int(rng.choice([1, 1, 2, 3, 4, 6, 9]))
        yield "functions rows=%d seed=%d" % (k, s), lambda s=s, k=k: job_functions(s, k)
        s = int(rng.integers(2**31))
        yield "types rows=%d seed=%d" % (k, s), lambda s=s, k=k: job_types(s, k)
    for n, k in [(300, 4), (512, 3), (1000, 2), (1025, 5), (2000, 3), (4097, 2), (10000, 2), (33000, 1), (200, 9)] * (1 if quick else 10):
        s = int(rng.integers(2**31))
        yield "long rows n=%d rows=%d seed=%d" % (n, k, s), lambda s=s, n=n, k=k: job_long(s, n, k)
    groups = by_data(gen["rows"])
    for rep in range(6 if quick else 40):
        for key, reqs in groups:
            s = int(rng.integers(2**31))
            k = int(rng.integers(6))
            names = ROPS if rep == 0 else [ROPS[k], ROPS[(k + 2) % 6]]
            nrows = [1, 2, 3, 5, 8, 13][int(rng.integers(6))]
            yield "%s exponent=%d/%d rows=%d seed=%d" % (key + (nrows, s)), (
                lambda s=s, key=key, reqs=reqs, names=names, nrows=nrows: job_rows(s, key, reqs, names, nrows))
    # as many rows as numbers in them
    for rep in range(1 if quick else 10):
        for key, reqs in groups:
            if key[0] in ("1d", "int", "column"):
                s, k = int(rng.integers(2**31)), int(rng.choice([4, 5, 7, 9, 12, 17, 30]))
                yield "%s exponent=%d/%d square %d seed=%d" % (key + (k, s)), (
                    lambda s=s, key=key, reqs=reqs, k=k: job_rows(s, key, reqs, [ROPS[s % 6], ROPS[3 + s % 3]], k, k))
    # many rows, distributed among threads
    fast = [q for q in gen["rows"] if q["meth"] == "auto" and q["mode"] in ("auto", "cpu", "parallel") and q["p"] == q["q"]
            and q["rmode"] in ("auto", "optimized") and q["fn"] == "measure"]
    for rep in range(4 if quick else 40):
        for kind in ("1d", "column", "mixed", "int"):
            s = int(rng.integers(2**31))
            nrows = [64, 100, 257, 500][int(rng.integers(4))]
            reqs = [q for q in fast if q["kind"] == kind]
            yield "%s many rows=%d seed=%d" % (kind, nrows, s), (
                lambda s=s, kind=kind, reqs=reqs, nrows=nrows: job_rows(s, (kind, 1, 1), reqs, [ROPS[s % 6]], nrows))
