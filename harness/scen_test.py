"""C05, C06, C18: permutation tests."""
from __future__ import annotations

import hashlib
import json

import numpy as np

from common import SHAPES as FAMS, call, dim, gen_sample, j_num, is_finite, near, sample, together
from scen_pair import EXPS


def outcome_test(f):
    """Outcome of a hypothesis test."""
    import dcor
    box = {}

    def g():
        box["r"] = f()
        return 0.0
    o = call(g)
    if o["k"] == "err":
        return o
    res = box["r"]
    if not isinstance(res, dcor.HypothesisTest):
        return {"k": "other", "t": type(res).__name__, "w": o["w"]}
    num = lambda v: {"k": "val", "v": j_num(float(v))} if is_finite(float(v)) else {"k": "nan", "s": str(float(v))}
    return {"k": "test", "p": num(res.pvalue), "s": num(res.statistic), "w": o["w"]}


def text(o, *keys):
    """What is to be compared of an outcome, as a string."""
    return json.dumps([o["k"], o.get("t"), [o.get(k) for k in keys]], sort_keys=True)


def make_state(kind, seed):
    """A random_state argument, and a twin of it for the prediction."""
    if kind == "int":
        return seed, np.random.RandomState(seed)
    if kind == "npint":
        return np.int64(seed), np.random.RandomState(seed)
    if kind == "RandomState":
        return np.random.RandomState(seed), np.random.RandomState(seed)
    if kind == "used RandomState":
        a, b = np.random.RandomState(seed), np.random.RandomState(seed)
        a.normal(size=3), b.normal(size=3)
        return a, b
    if kind == "Generator":
        b = [np.random.PCG64, np.random.MT19937, np.random.Philox, np.random.SFC64][seed % 4]
        return np.random.Generator(b(seed)), np.random.Generator(b(seed))
    raise ValueError(kind)


STATES = ["int", "npint", "RandomState", "used RandomState", "Generator"]


def pick_seed(r):
    return int(r.choice([0, 0, 1, 2**32 - 1])) if r.random() < .15 else int(r.integers(2**32))


def draw(twin, n, k):
    return [[int(i) + 1 for i in twin.permutation(n)] for _ in range(k)]


def resamples(r, n, quickmax=40, only=False):
    if only:
        return quickmax
    return int(r.choice([0, 1, 2, 3, 5, 7, 10, 19, quickmax]))


def two(r, n, exact):
    if exact:
        m = int(r.choice([1, 2, 3, 7, 40]))
        x = r.integers(0, m + 1, (n, 1)).astype(float)
        y = x.copy() if r.random() < .3 else r.integers(0, m + 1, (n, 1)).astype(float)
        return x, y
    dx, dy = dim(r, 9), dim(r, 9)
    x = gen_sample(r, n, dx, FAMS[int(r.integers(len(FAMS)))])
    y = gen_sample(r, n, dy, FAMS[int(r.integers(len(FAMS)))])
    if r.random() < .3:
        y = x[:, :1] ** 2 / max(1.0, float(np.max(np.abs(x[:, :1])))) + r.normal(size=(n, 1)) * .1
    return x, y


def shape1(r, a):
    return a[:, 0] if a.shape[1] == 1 and r.random() < .5 else a


def job_dcov(seed, n, judge="p", exact=False, nmax=40, only=False):
    import dcor
    r = np.random.default_rng(seed)
    x, y = two(r, n, exact)
    p, q = (1, 1) if exact or r.random() < .5 else EXPS[int(r.integers(11))]
    p, q, x, y = near(r, p, q, x, y, prob=0 if exact or n > 70 else .05)
    e = p / q if q > 1 else p
    nr = resamples(r, n, nmax, only)
    sd = pick_seed(r)
    kind = STATES[int(r.integers(len(STATES)))]
    st, twin = make_state(kind, sd)
    perms = draw(twin, n, nr)
    xx, yy = (shape1(r, t) for t in together(r, x, y))
    out = outcome_test(lambda: dcor.independence.distance_covariance_test(
        xx, yy, num_resamples=nr, random_state=st, **({} if e == 1 else {"exponent": e})))
    return {"kind": "test", "test": "dcov", "judge": judge, "p": p, "q": q, "tb": 33, "exact": exact,
            "x": sample(x, q), "y": sample(y, q), "perms": perms,
            "calls": [{"cfg": "resamples=%d, %s" % (nr, kind), "out": out}]}


def job_pdcov(seed, n, judge="p", exact=False, nmax=40, only=False):
    import dcor
    r = np.random.default_rng(seed)
    x, y = two(r, n, exact)
    if exact:
        z = np.full((n, 1), 1.0)
        tot = lambda a: np.abs(a - a.T).sum()
        while tot(x) % 3 or tot(y) % 3:
            x, y = r.integers(0, 8, (n, 1)).astype(float), r.integers(0, 8, (n, 1)).astype(float)
    else:
        z = gen_sample(r, n, dim(r, 9), FAMS[int(r.integers(len(FAMS)))])
        if r.random() < .2:
            z = np.full((n, 1), 2.5)
    p, q = (1, 1) if exact or r.random() < .5 else EXPS[int(r.integers(11))]
    p, q, x, y, z = near(r, p, q, x, y, z, prob=0 if exact or n > 70 else .05)
    e = p / q if q > 1 else p
    nr = resamples(r, n, nmax, only)
    sd = pick_seed(r)
    kind = STATES[int(r.integers(len(STATES)))]
    st, twin = make_state(kind, sd)
    perms = draw(twin, n, nr)
    xx, yy, zz = (shape1(r, t) for t in together(r, x, y, z))
    out = outcome_test(lambda: dcor.independence.partial_distance_covariance_test(
        xx, yy, zz, num_resamples=nr, random_state=st, **({} if e == 1 else {"exponent": e})))
    return {"kind": "test", "test": "pdcov", "judge": judge, "p": p, "q": q, "tb": 33, "exact": exact,
            "x": sample(x, q), "y": sample(y, q), "z": sample(z, q), "perms": perms,
            "calls": [{"cfg": "resamples=%d, %s" % (nr, kind), "out": out}]}


def job_energy(seed, sizes, judge="p", exact=False, nmax=40, only=False):
    import dcor
    import scen_energy
    r = np.random.default_rng(seed)
    est = "U" if min(sizes) > 1 and r.random() < .4 else "V"
    avg = "mean"
    if exact:
        m = int(r.choice([1, 2, 3, 7]))
        samples = [r.integers(0, m + 1, (n, 1)).astype(float) for n in sizes]
    else:
        avg = ["mean", "mean", "median", "max"][int(r.integers(4))]
        d = dim(r, 9)
        fam = FAMS[int(r.integers(len(FAMS)))]
        samples = [gen_sample(r, n, d, fam) + (i if r.random() < .5 else 0) for i, n in enumerate(sizes)]
    p, q = (1, 1) if exact or r.random() < .5 else EXPS[int(r.integers(11))]
    p, q, *samples = near(r, p, q, *samples, prob=0 if exact or sum(sizes) > 70 else .05)
    e = p / q if q > 1 else p
    n = sum(sizes)
    nr = resamples(r, n, nmax, only)
    sd = pick_seed(r)
    kind = STATES[int(r.integers(len(STATES)))]
    st, twin = make_state(kind, sd)
    perms = draw(twin, n, nr)
    f = {"mean": None, "median": np.median, "max": np.max}[avg]
    out = outcome_test(lambda: dcor.homogeneity.energy_test(
        *[shape1(r, s) for s in samples], num_resamples=nr, random_state=st, exponent=e, average=f, estimation_stat=est))
    return {"kind": "test", "test": "energy", "judge": judge, "p": p, "q": q, "tb": 33, "exact": exact,
            "est": est, "avg": avg, "pool": scen_energy.pooled(samples, q), "sizes": list(sizes), "perms": perms,
            "calls": [{"cfg": "resamples=%d, %s, %s/%s" % (nr, kind, est, avg), "out": out}]}


def job_planned(seed, test, n, nr):
    """Data chosen after the permutations, so that few of them (the first, the
    last, one in the middle...) are above a statistic that is itself extreme."""
    import dcor
    import scen_energy
    r = np.random.default_rng(seed)
    sd = pick_seed(r)
    kind = STATES[int(r.integers(len(STATES)))]
    st, twin = make_state(kind, sd)
    perms = draw(twin, n, nr)
    which = [0, nr - 1, max(0, nr - 2)] + [int(i) for i in r.integers(0, nr, 3)]
    ks = sorted({which[int(r.integers(6))] for _ in range(int(r.choice([1, 1, 1, 2])))})
    # weights above and below the one of the data
    ws = [float(r.choice([1.25, 1.5, 1.125, .5, .75])) for _ in ks]
    ws[0] = max(ws[0], 1.25)
    ix = [np.array(perms[k]) - 1 for k in ks]
    ev = {"kind": "test", "test": test, "judge": "p", "p": 1, "q": 1, "tb": 33, "exact": False, "perms": perms}
    if test == "energy":
        a = int(r.integers(max(2, n // 4), n - 1))
        v = r.normal(size=(n, 1)) * .05
        v[:a] += 1
        for w, i in zip(ws, ix):
            v[i[:a]] += w
        v = np.round(v * 1024) / 1024
        sizes = (a, n - a)
        out = outcome_test(lambda: dcor.homogeneity.energy_test(v[:a], v[a:], num_resamples=nr, random_state=st))
        ev.update(est="V", avg="mean", pool=scen_energy.pooled([v[:a], v[a:]], 1), sizes=list(sizes))
    else:
        x = np.round(r.normal(size=(n, 1)) * 64) / 64
        if r.random() < .5:      # everything depends on the last observations
            x[-(n // 14 + 2):] *= 64
        y = x + sum(w * x[i] for w, i in zip(ws, ix))
        ev.update(x=sample(x), y=sample(y))
        if test == "pdcov":
            z = np.round(r.normal(size=(n, 1)) * 64) / 64
            ev.update(z=sample(z))
            out = outcome_test(lambda: dcor.independence.partial_distance_covariance_test(
                x, y, z, num_resamples=nr, random_state=st))
        else:
            out = outcome_test(lambda: dcor.independence.distance_covariance_test(x, y, num_resamples=nr, random_state=st))
    ev["calls"] = [{"cfg": "planned %s, resamples=%d, %s" % (ks, nr, kind), "out": out}]
    return ev


def job_result(seed):
    """The older ways of reading a result."""
    import dcor
    import warnings
    r = np.random.default_rng(seed)
    n = int(r.integers(4, 12))
    x, y, z = (gen_sample(r, n, int(r.integers(1, 3)), "double") for _ in "xyz")
    nr = int(r.integers(1, 30))
    calls = []
    for name, f in (("dcov", lambda: dcor.independence.distance_covariance_test(x, y, num_resamples=nr, random_state=3)),
                    ("pdcov", lambda: dcor.independence.partial_distance_covariance_test(x, y, z, num_resamples=nr, random_state=3)),
                    ("energy", lambda: dcor.homogeneity.energy_test(x, x[:, ::-1] + 1, num_resamples=nr, random_state=3)),
                    ("t", lambda: dcor.independence.distance_correlation_t_test(x, y))):
        res = f()
        for what, get, same in (("p_value", lambda: repr(float(res.p_value)), repr(float(res.pvalue))),
                                ("unpacking", lambda: repr([float(v) for v in res]), repr([float(res.pvalue), float(res.statistic)])),
                                ("len", lambda: str(len(res)), "2"),
                                ("reading it twice", lambda: repr([float(res.p_value)] + [float(v) for v in res]),
                                 repr([float(res.pvalue), float(res.pvalue), float(res.statistic)]))):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                calls.append({"what": "%s test: %s disagrees with the result" % (name, what), "a": get(), "b": same})
    return {"kind": "equal", "calls": calls}


EXACT_SIZES = [(2, 2), (4, 4), (2, 2, 2), (2, 2, 2, 2), (1, 1), (4, 4, 4), (8, 8), (1, 1, 1)]
GEN_SIZES = [(2, 3), (3, 3), (5, 4), (1, 6), (7, 5), (2, 3, 4), (3, 1, 5), (6, 6, 6), (2, 2, 3, 3), (12, 9)]


def c05(rng, tier):
    quick = tier == "quick"
    k = 1 if quick else 10
    seed = lambda: int(rng.integers(2**31))
    for _ in range(6 * k):
        s = seed()
        yield "result seed=%d" % s, lambda s=s: job_result(s)
    for _ in range(18 * k):
        for n in (2, 4, 8, 16):
            s = seed()
            yield "dcov exact n=%d seed=%d" % (n, s), lambda s=s, n=n: job_dcov(s, n, exact=True)
        for n in (2, 3, 5, 6, 7, 9, 12, 20):
            s = seed()
            yield "dcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_dcov(s, n)
        for n in (4, 4, 4):
            s = seed()
            yield "pdcov exact n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pdcov(s, n, exact=True)
        for n in (5, 6, 7, 10, 15):
            s = seed()
            yield "pdcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pdcov(s, n)
        for z in EXACT_SIZES:
            s = seed()
            yield "energy exact sizes=%s seed=%d" % (z, s), lambda s=s, z=z: job_energy(s, z, exact=True)
        for z in GEN_SIZES:
            s = seed()
            yield "energy sizes=%s seed=%d" % (z, s), lambda s=s, z=z: job_energy(s, z)
    for n in (40, 64, 65, 100, 129, 200, 257, 300, 520) * k:
        s = seed()
        yield "dcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_dcov(s, n, nmax=30)
        s = seed()
        yield "pdcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pdcov(s, n, nmax=30)
        s = seed()
        yield "energy n=%d seed=%d" % (n, s), lambda s=s, n=n: job_energy(s, (n // 3, n - n // 3 - 5, 5), nmax=30)
    for t in ("dcov", "pdcov", "energy"):
        for n, nr in [(9, 1), (12, 3), (20, 20), (20, 100), (17, 200), (20, 199), (16, 500), (280, 5), (299, 9), (40, 999), (40, 1000), (40, 1500), (40, 2000)] * (2 * k):
            s = seed()
            yield "%s planned n=%d resamples=%d seed=%d" % (t, n, nr, s), lambda s=s, t=t, n=n, nr=nr: job_planned(s, t, n, nr)
    for _ in range(2 * k):
        for n in (6, 16):
            s = seed()
            yield "dcov n=%d many seed=%d" % (n, s), lambda s=s, n=n: job_dcov(s, n, nmax=1001, only=True)
            s = seed()
            yield "pdcov n=%d many seed=%d" % (n, s), lambda s=s, n=n: job_pdcov(s, n, nmax=999, only=True)
            s = seed()
            yield "energy n=%d many seed=%d" % (n, s), lambda s=s, n=n: job_energy(s, (n // 2, n // 2 + 1), nmax=1000, only=True)
        for n in (8, 30):
            s = seed()
            yield "dcov n=%d many seed=%d" % (n, s), lambda s=s, n=n: job_dcov(s, n, nmax=500, exact=n == 8)
            s = seed()
            yield "pdcov n=%d many seed=%d" % (n, s), lambda s=s, n=n: job_pdcov(s, n, nmax=300)
            s = seed()
            yield "energy many seed=%d" % s, lambda s=s: job_energy(s, (4, 4), nmax=500, exact=True)


def c18(rng, tier):
    quick = tier == "quick"
    k = 1 if quick else 10
    seed = lambda: int(rng.integers(2**31))
    for _ in range(26 * k):
        for n in (1, 2, 3, 4, 5, 6, 8, 9, 13, 20, 33, 50):
            s = seed()
            yield "dcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_dcov(s, n, judge="s", nmax=5)
        for n in (4, 5, 6, 7, 8, 11, 16, 25, 40):
            s = seed()
            yield "pdcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pdcov(s, n, judge="s", nmax=5)
        if _ % 3 == 0:
            for n in (80, 128, 150, 257) + ((513,) if _ % 6 == 0 else ()):
                s = seed()
                yield "dcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_dcov(s, n, judge="s", nmax=5)
                s = seed()
                yield "pdcov n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pdcov(s, n, judge="s", nmax=5)
        s = seed()
        yield "independence of options seed=%d" % s, lambda s=s: job_same_stat(s)


def job_same_stat(seed):
    """The statistic does not depend on the resampling options."""
    import dcor
    import joblib
    r = np.random.default_rng(seed)
    n = int(r.integers(4, 12))
    x, y = two(r, n, False)
    z = gen_sample(r, n, 1, "double")
    e = float(r.choice([1, .5, 1.5]))
    D = dcor.independence.distance_covariance_test
    P = dcor.independence.partial_distance_covariance_test
    calls = []
    for name, f, args in (("dcov", D, (x, y)), ("pdcov", P, (x, y, z))):
        ref = outcome_test(lambda: f(*args, exponent=e))
        for kw in (dict(num_resamples=3, random_state=1), dict(num_resamples=5, random_state=np.random.default_rng(2)),
                   dict(num_resamples=4, random_state=7, n_jobs=2), dict(num_resamples=2)):
            with joblib.parallel_config(backend="threading"):
                o = outcome_test(lambda: f(*args, exponent=e, **kw))
            calls.append({"what": "%s test statistic depends on the options" % name, "a": text(ref, "s"), "b": text(o, "s")})
    return {"kind": "equal", "calls": calls}
