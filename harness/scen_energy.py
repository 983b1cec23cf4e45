"""C07, C08: energy distance and energy statistic."""
from __future__ import annotations

import numpy as np

from common import SHAPES as FAMS, call, dim, distant, gen_sample, near, sample
from scen_pair import EXPS

EST = {"V": ["V", "v", "v_statistic", "V_STATISTIC", "V_Statistic"], "U": ["U", "u", "u_statistic", "U_STATISTIC", "u_Statistic"]}


def midrange(a):
    return (np.min(a) + np.max(a)) / 2


def averages(r=None):
    """Averages to use: the mean, and some of the others."""
    all = {"mean": [None, np.mean, np.average], "median": [np.median], "max": [np.max, np.amax], "min": [np.min],
           "midrange": [midrange]}
    keep = ["mean"] + [list(all)[1:][int(i)] for i in r.permutation(4)[:2]] if r else list(all)
    return {k: all[k] for k in keep}


def est_value(r, est):
    import dcor
    k = int(r.integers(3))
    if k == 0:
        return {"U": dcor.EstimationStatistic.U_STATISTIC, "V": dcor.EstimationStatistic.V_STATISTIC}[est]
    return EST[est][int(r.integers(5))]


def pick(r, n, m, d, same=None):
    x = gen_sample(r, n, d, FAMS[int(r.integers(len(FAMS)))])
    k = int(r.integers(9)) if same is None else same
    if k == 0 and n == m:
        y = x[r.permutation(n)]
    elif k == 1:
        y = x[r.integers(0, n, m)] + 0.0
    elif k == 2:
        y = np.concatenate([x] * (m // n + 1))[:m] + 1.0
    elif k == 3 and n == m:      # the same columns, dependent in another way
        y = np.stack([x[r.permutation(n), j] for j in range(d)], axis=1)
    elif k == 4 and n == m:      # the same object
        y = x
    else:
        y = gen_sample(r, m, d, FAMS[int(r.integers(len(FAMS)))])
    return x, y


def job_energy(seed, n, m):
    import dcor
    r = np.random.default_rng(seed)
    d = dim(r)
    p, q = (1, 1) if r.random() < .4 else EXPS[int(r.integers(len(EXPS)))]
    if n * m > 500000 and q > 2:
        p, q = 1, 2
    x, y = pick(r, n, m, d)
    if x is not y:
        x, y = distant(r, x, y)
    p, q, x, y = near(r, p, q, x, y, prob=.06 if max(n, m) < 70 else 0)
    e = p / q if q > 1 else p
    xx, yy = (x[:, 0], y[:, 0]) if d == 1 and r.random() < .5 else (x, y)
    if x is y:
        yy = xx
    calls = [{"op": "energy", "cfg": "default", "est": "V", "avg": "mean",
              "out": call(dcor.energy_distance, xx, yy, **({} if e == 1 else {"exponent": e}))}]
    for est in (["V", "U"] if min(n, m) > 1 else ["V"]):
        for avg, fs in averages(r).items():
            v = est_value(r, est)
            kw = dict(exponent=e, estimation_stat=v, average=fs[int(r.integers(len(fs)))])
            calls.append({"op": "energy", "cfg": "%s/%s" % (v, avg), "est": est, "avg": avg,
                          "out": call(dcor.energy_distance, xx, yy, **kw)})
    return {"kind": "energy", "p": p, "q": q, "tb": 36, "x": sample(x, q), "y": sample(y, q), "calls": calls}


def c07(rng, tier):
    quick = tier == "quick"
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (4, 2), (5, 5), (3, 8), (8, 8), (9, 4), (13, 13), (16, 30), (31, 17),
             (40, 40), (64, 33)]
    for _ in range(40 if quick else 200):
        for n, m in sizes:
            s = int(rng.integers(2**31))
            yield "n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_energy(s, n, m)
    for n, m in [(100, 80), (150, 150), (200, 40), (257, 129), (128, 128), (1, 300), (300, 2), (256, 64), (400, 350), (520, 90),
                 (30, 1030), (500, 500), (1030, 1030), (2050, 3), (1100, 64)] * (1 if quick else 8):
        s = int(rng.integers(2**31))
        yield "n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_energy(s, n, m)


def pooled(samples, q):
    """Pooled sample: the recorded order is the order of the arguments."""
    return sample(np.concatenate([np.asarray(s, dtype=float).reshape(len(s), -1) for s in samples]), q)


def job_ksample(seed, sizes):
    import dcor
    r = np.random.default_rng(seed)
    d = dim(r)
    p, q = (1, 1) if r.random() < .5 else EXPS[int(r.integers(len(EXPS)))]
    fam = FAMS[int(r.integers(len(FAMS)))]
    samples = [gen_sample(r, n, d, fam if r.random() < .5 else FAMS[int(r.integers(len(FAMS)))]) for n in sizes]
    if len(set(sizes)) < len(sizes) and r.random() < .25:      # two of the samples alike
        i, j = [(i, j) for i in range(len(sizes)) for j in range(i) if sizes[i] == sizes[j]][0]
        samples[i] = [samples[j], samples[j].copy(), samples[j][r.permutation(sizes[j])]][int(r.integers(3))]
    if r.random() < .3:
        samples = [s + i for i, s in enumerate(samples)]
    p, q, *samples = near(r, p, q, *samples, prob=.06 if sum(sizes) < 70 else 0)
    e = p / q if q > 1 else p
    args = list(samples)
    if r.random() < .35:                                       # samples of different types
        for i in range(len(args)):
            if r.random() < .5:
                samples[i] = np.clip(np.round(samples[i]), -100, 100)
                args[i] = samples[i].astype([np.int64, np.int32, np.int16, np.int8][int(r.integers(4))])
    args = [s[:, 0] for s in args] if d == 1 and r.random() < .5 else args
    calls = []
    for est in (["V", "U"] if min(sizes) > 1 else ["V"]):
        for avg, fs in averages(r).items():
            v = est_value(r, est)
            kw = dict(exponent=e, estimation_stat=v, average=fs[int(r.integers(len(fs)))])
            nr = int(r.choice([0, 0, 1, 3]))
            calls.append({"op": "energy_test", "cfg": "%s/%s/resamples=%d" % (v, avg, nr), "est": est, "avg": avg,
                          "out": call(lambda: dcor.homogeneity.energy_test(
                              *args, num_resamples=nr, random_state=int(r.integers(1000)), **kw).statistic)})
            if len(sizes) == 2:
                calls.append({"op": "energy_test_statistic", "cfg": "%s/%s" % (v, avg), "est": est, "avg": avg,
                              "out": call(dcor.homogeneity.energy_test_statistic, *args, **kw)})
    return {"kind": "ksample", "p": p, "q": q, "tb": 36, "pool": pooled(samples, q), "sizes": list(sizes),
            "calls": calls}


SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 5), (6, 6), (9, 4), (20, 13), (1, 1, 1), (2, 2, 2), (1, 2, 3), (3, 1, 2),
         (4, 5, 3), (5, 2, 7), (2, 9, 2), (10, 10, 4), (2, 2, 2, 2), (1, 2, 3, 4), (4, 3, 2, 1), (5, 2, 6, 3), (2, 3, 2, 3, 2),
         (3, 4, 1, 2, 2, 5), (12, 7, 9), (2, 2, 2, 2, 2, 2, 2), (1, 1, 1, 1, 1), (3, 30), (30, 3), (17, 16, 15), (64, 33), (40, 2, 40),
         (2, 3, 4, 5, 6, 7, 8, 9), (5, 5, 5, 5, 5, 5, 5, 5, 5, 5)]
BIG = [(100, 100), (130, 20, 60), (257, 40), (64, 64, 64, 64), (300, 200), (2, 200), (90, 90, 90), (520, 510), (1030, 5, 20), (600, 300, 200)]


def c08(rng, tier):
    import scen_test
    quick = tier == "quick"
    for _ in range(14 if quick else 150):
        for sizes in SIZES:
            s = int(rng.integers(2**31))
            yield "sizes=%s seed=%d" % (sizes, s), lambda s=s, z=sizes: job_ksample(s, z)
    for sizes in BIG * (1 if quick else 10):
        s = int(rng.integers(2**31))
        yield "sizes=%s seed=%d" % (sizes, s), lambda s=s, z=sizes: job_ksample(s, z)
    # the resamples deal the pooled observations to groups of the original sizes
    for _ in range(4 if quick else 60):
        for sizes in SIZES[2:]:
            s = int(rng.integers(2**31))
            yield "resamples sizes=%s seed=%d" % (sizes, s), (
                lambda s=s, z=sizes: scen_test.job_energy(s, z, judge="p"))
