"""C09, C15, C16, C17: partial measures, distances, affine invariance, t-test."""
from __future__ import annotations

import fractions

import numpy as np

from common import SHAPES as FAMS, call, dependent, dim, distant, gen_sample, is_finite, j_num, near, outcome_value, sample, together
from scen_pair import EXPS, configs, j_line, pick_pair, two_lines, usable


def one_d(r, a):
    return a[:, 0] if a.shape[1] == 1 and r.random() < .5 else a


# ------------------------------------------------------------------ partial
def job_partial(seed, n):
    import dcor
    r = np.random.default_rng(seed)
    x, y = pick_pair(r, n, dim(r), dim(r))
    z = gen_sample(r, n, dim(r), FAMS[int(r.integers(len(FAMS)))])
    case = int(r.integers(9))
    same = False
    if case == 0:
        z = np.full((n, 1), [0.1, 3.0, -7.5, 1e5 + .1][int(r.integers(4))])
    elif case == 1:
        z, same = x.copy(), True
    elif case == 2:
        z, same = y, True
    elif case == 3:
        y = x if r.random() < .7 else x.copy()
    elif case == 4:
        z = dependent(r, x, ["square", "step"][int(r.integers(2))])
    elif case == 5:
        x = np.full_like(x, 2.5)
    elif case == 6:      # a common factor
        z = gen_sample(r, n, 1, "double")
        x, y = z + .3 * gen_sample(r, n, 1, "double"), z - .2 * gen_sample(r, n, 1, "double")
    if r.random() < .3:
        x, y = y, x
    alike = x is y or x is z or y is z
    xx, yy, zz = (x, y, z) if alike and r.random() < .7 else (one_d(r, t) for t in together(r, x, y, z))
    calls = [{"op": "pdcov", "cfg": "", "out": call(dcor.partial_distance_covariance, xx, yy, zz)},
             {"op": "pdcor", "cfg": "", "out": call(dcor.partial_distance_correlation, xx, yy, zz)},
             {"op": "pdcov", "cfg": "swapped", "out": call(dcor.partial_distance_covariance, yy, xx, zz)},
             {"op": "pdcor", "cfg": "swapped", "out": call(dcor.partial_distance_correlation, yy, xx, zz)}]
    if case == 0:
        calls.append({"op": "udcov_sqr", "cfg": "partial with constant z",
                      "out": call(dcor.partial_distance_covariance, xx, yy, zz)})
    return {"kind": "partial", "x": sample(x), "y": sample(y), "z": sample(z), "tb": 33, "same": same, "calls": calls}


def c09(rng, tier):
    quick = tier == "quick"
    for _ in range(70 if quick else 500):
        for n in (4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 21, 32, 33, 50):
            s = int(rng.integers(2**31))
            yield "n=%d seed=%d" % (n, s), lambda s=s, n=n: job_partial(s, n)
    for n in (80, 100, 128, 150, 200, 256, 257, 300, 400, 513) * (1 if quick else 10):
        s = int(rng.integers(2**31))
        yield "n=%d seed=%d" % (n, s), lambda s=s, n=n: job_partial(s, n)


# ---------------------------------------------------------------- distances
def dist_types():
    import array_api_strict as aas
    return {
        "float64": lambda a: a,
        "float32": lambda a: a.astype(np.float32),
        "int64": lambda a: a.astype(np.int64),
        "int8": lambda a: a.astype(np.int8),
        "uint8": lambda a: np.abs(a).astype(np.uint8),
        "uint64": lambda a: np.abs(a).astype(np.uint64),
        "Fraction": lambda a: np.array([[fractions.Fraction(v) for v in row] for row in a.tolist()], dtype=object).reshape(a.shape),
        "object": lambda a: a.astype(object),
        "strict": lambda a: aas.asarray(a),
        "fortran": lambda a: np.asfortranarray(a),
        "strided": lambda a: np.repeat(a, 2, axis=0)[::2],
        "reversed": lambda a: a[::-1].copy()[::-1],
        "readonly": lambda a: (lambda b: (b.setflags(write=False), b)[1])(a.copy()),
        "longdouble": lambda a: a.astype(np.longdouble),
    }


def job_dist(seed, n, m):
    import dcor
    r = np.random.default_rng(seed)
    types = dist_types()
    names = list(types)
    tx = names[int(r.integers(len(names)))] if r.random() < .7 else "float64"
    ty = tx if r.random() < .6 or "strict" in tx else names[int(r.integers(len(names)))]
    objs = ("Fraction", "object")
    if tx != ty and (tx in objs or ty in objs):
        tx, ty = ("float64", ty) if ty in objs else (tx, "float64")
    if "strict" in (tx, ty):
        ty = tx = "strict"
    d = dim(r)
    p, q = (1, 1) if r.random() < .4 else EXPS[int(r.integers(len(EXPS)))]
    intish = any(t in ("int64", "int8", "uint8", "uint64", "float32") for t in (tx, ty))
    fam = ["ints", "ties", "perm", "sorted"][int(r.integers(4))] if intish else FAMS[int(r.integers(len(FAMS)))]
    x, y = gen_sample(r, n, d, fam), gen_sample(r, m, d, fam)
    if not intish and "Fraction" not in (tx, ty):
        x, y = distant(r, x, y)
    if max(n, m) < 70 and "Fraction" not in (tx, ty):
        p, q, x, y = near(r, p, q, x, y)
    if r.random() < .2:
        y = x[r.integers(0, n, m)] + 0.0
    if tx == "int8" or ty == "int8":
        x, y = np.clip(x * 13, -127, 127), np.clip(y * 13, -127, 127)
    elif tx in ("uint8",) or ty in ("uint8",):
        x, y = np.clip(np.abs(x) * 27, 0, 255), np.clip(np.abs(y) * 27, 0, 255)
    elif intish and tx in ("int64", "uint64") and ty in ("int64", "uint64") and r.random() < .3:
        x, y = np.abs(x) * 2.0**45, np.abs(y) * 2.0**45      # the squares do not fit
    if tx.startswith("uint") or ty.startswith("uint"):
        x, y = np.abs(x), np.abs(y)
    ax, ay = types[tx](x), types[ty](y)
    if tx == ty == "float64" and r.random() < .5:
        k = r.random()
        if k < .35 and n == m:       # columns of a table
            t = np.concatenate([x, y], axis=1)
            ax, ay = t[:, :d], t[:, d:]
        elif k < .7:                 # parts of a table, perhaps overlapping
            t = np.concatenate([x, y])
            ax = t[:n]
            ay = t[n:]
            if r.random() < .5:
                j = int(r.integers(0, n + 1))
                ay = t[j:j + m]
                y = ay.copy()
        elif n >= m:                 # a part of x, as it is or backwards
            ay = ax[n - m:] if r.random() < .5 else ax[:m][::-1]
            y = ay.copy()
    flat = d == 1 and r.random() < .5
    if flat:
        ax, ay = ax[:, 0], ay[:, 0]
    e = p / q if q > 1 else p
    kw = {} if e == 1 and r.random() < .5 else {"exponent": e}
    f = dcor.distances.pairwise_distances
    two = bool(r.random() < .6)
    ns = {"ns": "strict" if tx == "strict" else "numpy"}
    # Fraction/object samples use float or object arithmetic; float32 is exact for these values
    tb = 36
    if two:
        k = r.random()
        outs = [("%s, %s%s" % (tx, ty, " 1-D" if flat else ""), call(f, ax, ay, **kw))]
        if k < .3 and n == m:
            y, ay = x.copy(), types[tx](x) if not flat else types[tx](x)[:, 0]
            outs = [("%s, equal copy" % tx, call(f, ax, ay, **kw))]
    else:
        outs = [("%s" % tx, call(f, ax, **kw)), ("%s, y is x" % tx, call(f, ax, ax, **kw)),
                ("%s, y is None" % tx, call(f, ax, None, **kw))]
    return {"kind": "dist", "x": sample(x, q), "y": sample(y, q), "two": two, "p": p, "q": q, "tb": tb,
            "calls": [dict({"cfg": c, "out": o}, **ns) for c, o in outs]}


def job_dist_big(seed, n, m):
    """Many observations; the distances between a few of them are recorded."""
    import dcor
    r = np.random.default_rng(seed)
    d = dim(r)
    p, q = (1, 1) if r.random() < .5 else EXPS[int(r.integers(len(EXPS)))]
    fam = FAMS[int(r.integers(len(FAMS)))]
    x, y = gen_sample(r, n, d, fam), gen_sample(r, m, d, fam)
    e = p / q if q > 1 else p
    kw = {} if e == 1 else {"exponent": e}
    f = dcor.distances.pairwise_distances
    some = lambda k: np.unique(np.concatenate([[0, k - 1], r.integers(0, k, 14)]))
    i, j = some(n), some(m)
    flat = d == 1 and r.random() < .5
    ax, ay = (x[:, 0], y[:, 0]) if flat else (x, y)
    two = bool(r.random() < .6)
    box = []

    def part(*args):
        v = f(*args, **kw)
        box.append(v.shape)
        return v[np.ix_(i, j if two else i)]
    outs = [("many", call(part, ax, ay))] if two else [("many, one sample", call(part, ax)), ("many, y is x", call(part, ax, ax))]
    return {"kind": "dist", "x": sample(x[i], q), "y": sample(y[j], q), "two": two, "p": p, "q": q, "tb": 36,
            "calls": [{"cfg": c, "out": o} for c, o in outs],
            "also": [{"a": str(tuple(b)), "b": str((n, m if two else n)), "what": "shape of pairwise_distances"} for b in box]}


def c15(rng, tier):
    quick = tier == "quick"
    for n, m in [(1000, 1000), (1025, 300), (64, 1100), (1600, 1601), (2050, 40), (3, 2500), (2100, 2100), (4100, 1), (5000, 7)] * (
            2 if quick else 15):
        s = int(rng.integers(2**31))
        yield "many n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_dist_big(s, n, m)
    sizes = [(1, 1), (1, 2), (2, 1), (1, 7), (2, 2), (2, 3), (3, 2), (3, 3), (4, 5), (5, 5), (7, 4), (8, 8), (10, 3), (16, 17), (30, 20), (6, 40)]
    for _ in range(60 if quick else 500):
        for n, m in sizes:
            s = int(rng.integers(2**31))
            yield "n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_dist(s, n, m)
    for n, m in [(100, 60), (128, 128), (33, 150), (200, 201), (257, 130), (300, 300), (1, 500), (600, 3), (512, 100)] * (2 if quick else 20):
        s = int(rng.integers(2**31))
        yield "n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_dist(s, n, m)


# ------------------------------------------------------------------- affine
def int_sample(r, n, d, fam):
    """Integer data (the specification uses exact Mahalanobis distances)."""
    if fam == 0:
        return r.integers(-40, 41, (n, d)).astype(float)
    if fam == 1:
        return r.integers(0, 3, (n, d)).astype(float)
    if fam == 2:
        return np.round(r.normal(size=(n, d)) * 50) @ np.array(unimodular(r, d), dtype=float)
    base = np.round(r.normal(size=(n, 1)) * 60)
    return base + np.round(r.normal(size=(n, d)) * 25)


def unimodular(r, d):
    """An invertible integer matrix."""
    while True:
        m = r.integers(-3, 4, (d, d))
        if abs(round(np.linalg.det(m))) >= 1 and (d <= 4 or np.linalg.cond(m) < 60):
            return m.tolist()


def job_aff(seed, n):
    import dcor
    r = np.random.default_rng(seed)
    dx, dy = int(r.choice([1, 1, 2, 2, 3, 4])), int(r.choice([1, 1, 2, 3]))
    if n >= 20 and r.random() < .25:
        dx, dy = int(r.integers(4, 10)), int(r.integers(1, 8))
    dx, dy = min(dx, max(1, n - 2)), min(dy, max(1, n - 2))
    x, y = int_sample(r, n, dx, int(r.integers(4))), int_sample(r, n, dy, int(r.integers(4)))
    case = int(r.integers(8))
    if case == 0:
        x = np.full_like(x, [3.0, 0.1, 1e5 + .1, 7.7][int(r.integers(4))])
    elif case == 1:
        y = np.full_like(y, [-2.0, 1 / 3, 7.7][int(r.integers(3))])
    elif case == 2:
        y = x.copy()
    elif case == 3:
        y = x[:, :1] ** 2
    calls = []
    f, g = dcor.distance_correlation_af_inv, dcor.distance_correlation_af_inv_sqr
    # the same samples, and affine transformations of them: the same definition
    for k in range(3):
        tx, ty, what = x, y, "as is"
        if k:
            mx, my = np.array(unimodular(r, x.shape[1]), dtype=float), np.array(unimodular(r, y.shape[1]), dtype=float)
            sc = 2.0 ** float(r.integers(-20, 21))
            off = [2.0 ** int(r.choice([0, 0, 10, 20, 30])) for _ in range(2)]
            tx, ty = (x @ mx + off[0] * r.integers(-99, 100, x.shape[1])) * sc, y @ my - off[1] * r.integers(-99, 100, y.shape[1])
            # the product of equal rows need not give equal rows
            tx, ty = (np.repeat(t[:1], len(t), axis=0) if np.all(u == u[:1]) else t for t, u in ((tx, x), (ty, y)))
            what = "after an affine map"
            if k == 2:
                tx, ty = ty, tx
                what = "after an affine map, swapped"
        xx, yy = (one_d(r, t) for t in together(r, tx, ty))
        e = {}
        if x.shape[1] == 1 and y.shape[1] == 1 and r.random() < .7:
            name, e = configs()[int(r.integers(len(configs())))]
            what += ", " + name
        calls.append({"op": "af_inv_sqr", "cfg": what, "out": call(g, xx, yy, **e)})
        calls.append({"op": "af_inv", "cfg": what, "out": call(f, xx, yy, **e)})
    first = {"kind": "aff", "x": sample(x), "y": sample(y), "tb": 24, "calls": calls}
    # columns in units of very different size: less accurate
    sx, sy = (2.0 ** (r.integers(-8, 9) if k else r.choice([-8, 0, 8], d)) for k, d in zip(r.integers(0, 2, 2), (x.shape[1], y.shape[1])))
    tx, ty = together(r, x * sx, y * sy)
    units = [{"op": op, "cfg": "columns in other units", "out": call(h, one_d(r, tx), one_d(r, ty))}
             for op, h in (("af_inv_sqr", g), ("af_inv", f))]
    return {"kind": "many", "groups": [first, dict(first, tb=14, margin=5, calls=units)]}


def c16(rng, tier):
    quick = tier == "quick"
    for _ in range(45 if quick else 400):
        for n in (4, 5, 6, 8, 9, 12, 16, 20, 33, 60):
            s = int(rng.integers(2**31))
            yield "n=%d seed=%d" % (n, s), lambda s=s, n=n: job_aff(s, n)
    for n in (100, 128, 150, 200, 257, 300, 513) * (2 if quick else 20):
        s = int(rng.integers(2**31))
        yield "n=%d seed=%d" % (n, s), lambda s=s, n=n: job_aff(s, n)


# ------------------------------------------------------------------- t-test
def outcome_ttest(f):
    import dcor
    box = {}

    def g():
        box["r"] = f()
        return 0.0
    o = call(g)
    if o["k"] == "err":
        return o
    res = box["r"]
    if not isinstance(res, dcor.HypothesisTest):
        return {"k": "other", "t": type(res).__name__, "w": o["w"]}
    return {"k": "ttest", "s": outcome_value(res.statistic), "p": outcome_value(res.pvalue), "w": o["w"]}


def job_t(seed, n):
    import dcor
    r = np.random.default_rng(seed)
    x, y = pick_pair(r, n, dim(r), dim(r))
    case = int(r.integers(9))
    if case == 0:
        y = x
    elif case == 1:
        y = -2 * x + 1
    elif case == 2:
        x = np.full_like(x, 1.1)
    elif case == 3:
        y = x[:, :1] + .3 * gen_sample(r, n, 1, "double")
    elif case in (4, 5):
        x, y = gen_sample(r, n, 1, "double"), gen_sample(r, n, 1, "double")
    xx, yy = one_d(r, x), one_d(r, y)
    d = dcor.independence
    calls = [{"op": "t_statistic", "cfg": "", "out": call(d.distance_correlation_t_statistic, xx, yy)},
             {"op": "t_test", "cfg": "", "out": outcome_ttest(lambda: d.distance_correlation_t_test(xx, yy))},
             {"op": "t_test", "cfg": "swapped", "out": outcome_ttest(lambda: d.distance_correlation_t_test(yy, xx))}]
    return {"kind": "ttest", "x": sample(x), "y": sample(y), "p": 1, "q": 1, "tb": 33, "calls": calls}


def job_t_line(seed, n):
    """Many observations: only the statistic."""
    import dcor
    r = np.random.default_rng(seed)
    x, y, ex, ey = two_lines(r, n)
    fx, fy = x * 2.0**ex, y * 2.0**ey
    d = dcor.independence
    f = lambda: d.distance_correlation_t_statistic(fx, fy)
    g = lambda: d.distance_correlation_t_test(fx[:, None], fy).statistic
    return {"kind": "ttest", "line": True, "x": j_line(x, ex), "y": j_line(y, ey), "p": 1, "q": 1, "tb": 30, "calls": [
        {"op": "t_statistic", "cfg": "", "out": call(f)}, {"op": "t_statistic", "cfg": "of t_test", "out": call(g)}]}


def c17(rng, tier):
    quick = tier == "quick"
    for n in (200, 500, 1000, 1025, 2000, 4097, 10000, 20000, 40000) * (2 if quick else 20):
        s = int(rng.integers(2**31))
        yield "line n=%d seed=%d" % (n, s), lambda s=s, n=n: job_t_line(s, n)
    for _ in range(60 if quick else 400):
        for n in (4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 26):
            s = int(rng.integers(2**31))
            yield "n=%d seed=%d" % (n, s), lambda s=s, n=n: job_t(s, n)
    for n in (40, 60, 90, 128, 150, 200, 257) * (2 if quick else 10):
        s = int(rng.integers(2**31))
        yield "n=%d seed=%d" % (n, s), lambda s=s, n=n: job_t(s, n)
