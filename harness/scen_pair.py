"""C01, C02, C03: dependence measures of a pair of samples."""
from __future__ import annotations

import numpy as np

from common import SHAPES, call, dependent, dim, distant, gen_sample, near, sample, together

EXPS = [(1, 1), (1, 2), (3, 2), (1, 1), (1, 10), (7, 4), (19, 10), (3, 4),
        (1, 1), (5, 4), (1, 4), (2, 1), (5, 2)]


def ops():
    import dcor
    return {
        "dcov_sqr": dcor.distance_covariance_sqr,
        "dcov": dcor.distance_covariance,
        "udcov_sqr": dcor.u_distance_covariance_sqr,
        "dcor_sqr": dcor.distance_correlation_sqr,
        "dcor": dcor.distance_correlation,
        "udcor_sqr": dcor.u_distance_correlation_sqr,
        "stats_sqr": dcor.distance_stats_sqr,
        "stats": dcor.distance_stats,
        "ustats_sqr": dcor.u_distance_stats_sqr,
    }


def group(x, y, p, q, calls, tb=33):
    return {"kind": "pair", "p": p, "q": q, "tb": tb, "x": sample(x, q),
            "y": sample(y, q), "calls": calls}


def run(names, x, y, exponent=1, cfg="", **kw):
    o = ops()
    out = []
    for name in names:
        k = dict(kw)
        if exponent != 1 or "exponent" in kw:
            k["exponent"] = exponent
        out.append({"op": name, "cfg": cfg, "out": call(o[name], x, y, **k)})
    return out


def pick_pair(rng, n, dx, dy):
    fx = SHAPES[int(rng.integers(len(SHAPES)))]
    fy = SHAPES[int(rng.integers(len(SHAPES)))]
    x = gen_sample(rng, n, dx, fx)
    if rng.random() < 0.25:
        y = dependent(rng, x, ["copy", "neg", "square", "step"][int(rng.integers(4))])
    elif dx == dy and rng.random() < .06:       # a series and its lag, or overlapping windows
        b = gen_sample(rng, n + 3, dx, fx)
        k = int(rng.integers(1, 4))
        return b[:n], b[k:k + n]
    else:
        y = gen_sample(rng, n, dy, fy)
    return together(rng, x, y)


def c01(rng, tier):
    """The definition: every dimension, exponent and size."""
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 64, 65]
    rep = 30 if tier == "quick" else 200
    jobs = []
    for r in range(rep):
        for n in sizes:
            dx, dy = dim(rng), dim(rng)
            p, q = EXPS[int(rng.integers(len(EXPS)))]
            jobs.append((n, dx, dy, p, q))
    big = [100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700] * (1 if tier == "quick" else 5)
    big += [1025] if tier == "quick" else [1000, 1024, 1025, 1500]
    for n in big:
        jobs.append((n, 1, 1, 1, 1))
        jobs.append((n, dim(rng) + (n > 1024), dim(rng), 1, 1))
        if n <= 300:
            jobs.append((n, dim(rng), dim(rng)) + EXPS[int(rng.integers(len(EXPS)))])
    for n, dx, dy, p, q in jobs:
        s = int(rng.integers(2**31))

        def job(n=n, dx=dx, dy=dy, p=p, q=q, s=s):
            r = np.random.default_rng(s)
            x, y = distant(r, *pick_pair(r, n, dx, dy))
            p, q, x, y = near(r, p, q, x, y, prob=.08 if n < 70 else 0)
            names = ["dcov_sqr", "dcov"] + (["udcov_sqr"] if n > 3 else [])
            return group(x, y, p, q, run(names, x, y, p / q if q > 1 else p))
        yield "n=%d dims=%d,%d exponent=%d/%d seed=%d" % (n, dx, dy, p, q, s), job
    yield from lines(rng, [1000, 1024, 1025, 1500, 2047, 2049, 3000, 4096, 4097, 6000, 8193, 10000, 16385, 20000, 32769, 50000,
                           65537] * (1 if tier == "quick" else 5), lambda: [("", {})], ["dcov_sqr", "dcov", "udcov_sqr"])
    yield from tallies(rng, [60, 333, 1001, 4096, 9999, 30000, 100000, 131072, 200000, 262145] if tier == "quick" else
                       [100000, 131073, 262144, 300000, 524289, 1000003] * 4 + [2097200], lambda: [("", {})],
                       ["dcov_sqr", "dcov", "udcov_sqr"])


def configs():
    import dcor
    M = dcor.CompileMode
    D = dcor.DistanceCovarianceMethod
    return [
        ("naive/auto", dict(method=D.NAIVE, compile_mode=M.AUTO)),
        ("naive/no_compile", dict(method="naive", compile_mode=M.NO_COMPILE)),
        ("avl/auto", dict(method=D.AVL, compile_mode=M.AUTO)),
        ("avl/no_compile", dict(method="avl", compile_mode=M.NO_COMPILE)),
        ("avl/cpu", dict(method="avl", compile_mode=M.COMPILE_CPU)),
        ("mergesort/auto", dict(method=D.MERGESORT, compile_mode=M.AUTO)),
        ("mergesort/no_compile", dict(method="mergesort", compile_mode=M.NO_COMPILE)),
        ("mergesort/cpu", dict(method="mergesort", compile_mode=M.COMPILE_CPU)),
        ("auto/auto", dict(method=D.AUTO, compile_mode=M.AUTO)),
        ("auto/no_compile", dict(method="auto", compile_mode=M.NO_COMPILE)),
        ("auto/cpu", dict(method="auto", compile_mode=M.COMPILE_CPU)),
    ]


def usable(cfg, n):
    if n <= 3:
        return not cfg.startswith("avl") and cfg != "auto/cpu"
    return True


def as_repr(a, how):
    """The same numbers, as an array of another shape."""
    return a[:, 0] if how == "1d" else a


def c02_calls(x, y, r, names):
    n = x.shape[0]
    hx, hy = [("1d", "1d"), ("col", "col"), ("1d", "col"), ("col", "1d")][int(r.integers(4))]
    xx, yy = as_repr(x, hx), as_repr(y, hy)
    calls = []
    for cfg, kw in configs():
        if usable(cfg, n):
            calls += run([k for k in names if n > 3 or not k.startswith("u")],
                         xx, yy, cfg=cfg, **kw)
    return calls


def c02(rng, tier, order_types=()):
    """All algorithms and compile modes agree with the definition."""
    for t in order_types:
        s = int(rng.integers(2**31))

        def job(t=t, s=s):
            r = np.random.default_rng(s)
            n = len(t["x"])

            def values(ranks):
                k = max(ranks) + 1
                gaps = r.integers(1, 8, k)
                vals = np.cumsum(gaps) - int(r.integers(0, 30))
                return np.array([[float(vals[i])] for i in ranks]) * 2.0 ** int(r.choice([0, 0, 0, 0, -20, -40, -90, 30, 80]))
            x, y = values(t["x"]), values(t["y"])
            perm = r.permutation(n)
            x, y = x[perm], y[perm]
            names = ["dcov_sqr", "udcov_sqr"]
            return group(x, y, 1, 1, c02_calls(x, y, r, names))
        yield "order type x=%s y=%s seed=%d" % (t["x"], t["y"], s), job

    sizes = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 24,
             31, 32, 33, 47, 63, 64, 65, 66, 100, 127, 128, 129]
    rep = 7 if tier == "quick" else 60
    jobs = [n for _ in range(rep) for n in sizes]
    jobs += [200, 255, 256, 257, 258, 300, 383, 400] * (1 if tier == "quick" else 4)
    jobs += [511, 512, 513, 600, 777] if tier == "quick" else [500, 511, 512, 513, 600, 777, 1000, 1023, 1024, 1025, 1200] * 2
    for n in jobs:
        s = int(rng.integers(2**31))

        def job(n=n, s=s):
            r = np.random.default_rng(s)
            x, y = (t * 2.0 ** int(r.choice([0, 0, 0, 0, -20, -40, -90, 30, 80])) for t in pick_pair(r, n, 1, 1))
            if n > 200:
                names = ["ustats_sqr", "dcov_sqr"]
            else:
                names = ["dcov_sqr", "udcov_sqr", ["stats_sqr", "ustats_sqr", "dcor", "udcor_sqr", "dcov", "stats", "dcor_sqr"][int(r.integers(7))]]
            return group(x, y, 1, 1, c02_calls(x, y, r, names))
        yield "n=%d seed=%d" % (n, s), job
    q = tier == "quick"
    yield from lines(rng, [1000, 1023, 1024, 1025, 1300, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 6000, 8191,
                           8192, 8193, 10000, 12345, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 50000, 65535,
                           65536, 65537, 70000] * (1 if q else 4) + ([] if q else [100000, 131072, 131073]),
                     configs, ["dcov_sqr", "udcov_sqr", "stats_sqr", "ustats_sqr", "dcor", "udcor_sqr"])
    yield from tallies(rng, [40, 127, 129, 500, 1024, 2049, 5000, 16384, 40000, 80000, 100000, 131073, 150000, 262145] * (2 if q else 6)
                       + ([] if q else [524288, 1000003]), configs,
                       ["dcov_sqr", "udcov_sqr", "stats_sqr", "ustats_sqr", "dcor", "udcor_sqr"])


def int_line(r, n):
    k = int(r.integers(7))
    if k == 0:
        return r.permutation(n)
    if k == 1:
        return r.integers(0, int(r.choice([2, 3, 10, 1000])), n)
    if k == 2:
        return np.round(r.normal(size=n) * 2**int(r.integers(4, 16))).astype(int)
    if k == 3:
        return np.sort(r.integers(-10**5, 10**5, n))[::int(r.choice([1, -1]))]
    if k == 4:
        return np.repeat(r.permutation(n // 5 + 1), 5)[:n]
    if k == 5:
        return np.tile(r.integers(-100, 100, int(r.choice([3, 7, 64]))), n // 3 + 1)[:n]
    a = r.integers(-50, 50, n)
    a[int(r.integers(n))] = 10**6
    return a


def two_lines(r, n):
    """Two samples of n integers, and exponents of their units."""
    x = int_line(r, n)
    k = r.random()
    y = int_line(r, n) if k < .6 else ((x % 7) ** 2 if k < .8 else -x[::-1] if k < .9 else x.copy())
    return x, y, int(r.choice([0, 0, 0, -7, 13])), int(r.choice([0, 0, -20]))


def j_line(x, e):
    return {"v": [int(i) for i in x], "e": e}


def tally(r, n):
    """Very many observations, few of them different: values, units and counts, and the samples."""
    k = int(r.choice([1, 2, 3, 4, 7, 12, 20]))
    u, v = (r.integers(-a, a + 1, k) for a in r.choice([1, 3, 50, 4000], 2))
    if r.random() < .2:
        v = u * 3
    c = np.ones(k, dtype=int) if n < 2 * k else 1 + r.multinomial(n - k, r.dirichlet(np.full(k, r.choice([.3, 1, 5]))))
    c[0] += n - np.sum(c)
    ex, ey = int(r.choice([0, 0, -7, 13])), int(r.choice([0, 0, -20]))
    at = np.repeat(np.arange(k), c)
    how = int(r.integers(4))        # grouped or in any order
    if how == 1:
        at = at[::-1]
    elif how > 1:
        at = at[r.permutation(n)]
    js = {"x": j_line(u, ex), "y": j_line(v, ey), "c": [int(i) for i in c]}
    return js, u[at] * 2.0**ex, v[at] * 2.0**ey


def tallies(rng, sizes, cfgs, names):
    for n in sizes:
        s = int(rng.integers(2**31))

        def job(n=n, s=s):
            r = np.random.default_rng(s)
            js, x, y = tally(r, n)
            hx, hy = r.integers(2, size=2)
            x, y = x[:, None] if hx else x, y[:, None] if hy else y
            calls = []
            cs = [c for c in cfgs() if not c[0].startswith("naive") and (n <= 150000 or not c[0].endswith("no_compile"))]
            for i in r.permutation(len(cs))[:2]:
                ks = names if len(names) <= 3 else [names[int(j)] for j in r.permutation(len(names))[:2]]
                calls += run(ks, x, y, cfg=cs[i][0], **cs[i][1])
            return dict(js, kind="pair", line=True, p=1, q=1, tb=30, calls=calls)
        yield "tally n=%d seed=%d" % (n, s), job


def lines(rng, sizes, cfgs, names):
    """Samples of many numbers."""
    for n in sizes:
        s = int(rng.integers(2**31))

        def job(n=n, s=s):
            r = np.random.default_rng(s)
            x, y, ex, ey = two_lines(r, n)
            fx, fy = x * 2.0**ex, y * 2.0**ey
            if ex == ey == 0 and r.random() < .3:
                fx, fy = x.astype([np.int64, np.int32][int(r.integers(2))]), y
            hx, hy = [("1d", "1d"), ("col", "col"), ("1d", "col"), ("col", "1d")][int(r.integers(4))]
            fx, fy = fx if hx == "1d" else fx[:, None], fy if hy == "1d" else fy[:, None]
            calls = []
            for name, kw in cfgs():
                if n > 1500 and name.startswith("naive") or n > 20000 and name.endswith("no_compile"):
                    continue
                ks = names if len(names) <= 3 else [names[int(i)] for i in r.permutation(len(names))[:2]]
                calls += run(ks, fx, fy, cfg=name, **kw)
            return {"kind": "pair", "line": True, "p": 1, "q": 1, "tb": 30, "x": j_line(x, ex), "y": j_line(y, ey),
                    "calls": calls}
        yield "line n=%d seed=%d" % (n, s), job


ALL = ["dcov_sqr", "dcov", "udcov_sqr", "dcor_sqr", "dcor", "udcor_sqr",
       "stats_sqr", "stats", "ustats_sqr"]


def c03(rng, tier):
    """Correlations, variances and square roots are coherent."""
    sizes = [2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 17, 22, 30, 41, 64, 90]
    rep = 32 if tier == "quick" else 200
    for i in range(rep):
        for n in sizes + ([[129, 200], [257, 300], [100, 128], [150, 513]][i % 4] if i % 4 == 0 or tier != "quick" else []):
            s = int(rng.integers(2**31))

            def job(n=n, s=s, i=i):
                r = np.random.default_rng(s)
                dx, dy = (1, 1) if r.random() < .3 else (dim(r), dim(r))
                x, y = pick_pair(r, n, dx, dy)
                c = i % 8
                if c == 1:
                    x = np.full_like(x, [0.1, 3.0, 1e6 + 0.3, -0.7][int(r.integers(4))])
                if c == 2:
                    y = np.full_like(y, [0.1, 1 / 3, 1e5 + 0.1, -7.3][int(r.integers(4))])
                if c == 3:
                    y = x.copy()
                if c == 4:
                    y = x          # the very same object
                if c == 5:
                    y = -x * 4 + 3
                p, q = (1, 1) if r.random() < .6 else EXPS[int(r.integers(len(EXPS)))]
                names = [k for k in ALL if n > 3 or not k.startswith("u")]
                if dx == 1 and dy == 1 and (p, q) == (1, 1) and n > 3:
                    name, kw = configs()[int(r.integers(len(configs())))]
                    calls = run(names, x, y, cfg=name, **kw)
                else:
                    calls = run(names, x, y, p / q if q > 1 else p)
                g = group(x, y, p, q, calls)
                g["kind"] = "coherent"
                g["same"] = c in (3, 4, 5)
                return g
            yield "n=%d case=%d seed=%d" % (n, i % 8, s), job
    for n in [1000, 2000, 4097, 10000, 20000, 40000] * (2 if tier == "quick" else 12):
        s = int(rng.integers(2**31))

        def job(n=n, s=s):
            r = np.random.default_rng(s)
            x, y, ex, ey = two_lines(r, n)
            c = int(r.integers(6))
            if c == 0:
                x = np.full(n, 3)
            elif c < 3:
                y, ey = (x * [1, -4][c - 1]), ex
            fx, fy = x * 2.0**ex, y * 2.0**ey
            name, kw = [c for c in configs() if not c[0].startswith("naive") and not c[0].endswith("no_compile")][int(r.integers(6))]
            return {"kind": "coherent", "line": True, "same": c in (1, 2), "p": 1, "q": 1, "tb": 30, "x": j_line(x, ex),
                    "y": j_line(y, ey), "calls": run(ALL, fx, fy, cfg=name, **kw)}
        yield "line n=%d seed=%d" % (n, s), job
