"""C04: invariances of dependence and energy measures."""
from __future__ import annotations

import numpy as np

from common import call, dim, j_int, sample
from scen_pair import EXPS, configs, ops, usable

FAMS = ["ints", "ties", "binary", "perm", "sorted", "reversed", "normal", "cauchy", "small", "large", "runs", "outlier",
        "offset", "negative"]

ROT2 = [([[1, 0], [0, 1]], 1), ([[0, 1], [1, 0]], 1), ([[0, -1], [1, 0]], 1), ([[3, 4], [-4, 3]], 5),
        ([[5, 12], [12, -5]], 13), ([[2, 0], [0, -2]], 2), ([[-1, 0], [0, -1]], 1), ([[8, -6], [6, 8]], 10)]
ROT3 = [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1), ([[0, 1, 0], [0, 0, -1], [1, 0, 0]], 1),
        ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3), ([[-4, 0, 0], [0, 4, 0], [0, 0, 4]], 4)]


def mat_for(r, d, scale=True):
    if d == 1:
        s = int(r.choice([1, 1, 2, 3, 4, 5, 7, 16])) if scale else 1
        return [[s if r.random() < .5 else -s]], s
    if d > 3:        # blocks, permuted
        s = int(r.choice([1, 3, 5, 13]))
        m = np.zeros((d, d), dtype=int)
        i = 0
        while i < d:
            b = [[s]]
            if s in (5, 13) and i + 2 <= d:
                b = [[3, 4], [-4, 3]] if s == 5 else [[5, 12], [12, -5]]
            elif s == 3 and i + 3 <= d:
                b = [[1, 2, 2], [2, 1, -2], [2, -2, 1]]
            m[i:i + len(b), i:i + len(b)] = b
            i += len(b)
        m = m[:, r.permutation(d)] * r.choice([-1, 1], (1, d))
        return m.tolist(), s
    m, s = (ROT2 if d == 2 else ROT3)[int(r.integers(len(ROT2 if d == 2 else ROT3)))]
    return m, s


def off_for(r, d, unit):
    k = int(r.integers(4))
    if k == 0:
        o = np.zeros(d)
    elif k == 1:
        o = r.integers(-20, 20, d).astype(float)
    elif k == 2:
        o = r.integers(-2**19, 2**19, d).astype(float)
    else:
        o = r.integers(-1000, 1000, d) / 16.0
    return o * unit


def record(perm, m, s, off):
    return {"perm": [int(i) + 1 for i in perm], "m": m, "s": j_int(s), "off": sample(off[None, :])}


def base(r, n, d):
    from common import gen_sample
    fam = FAMS[int(r.integers(len(FAMS)))]
    x = gen_sample(r, n, d, fam)
    unit = {"small": 2.0**-26, "large": 2.0**20}.get(fam, 1.0)
    return x, unit


def apply(x, perm, m, off):
    return x[perm] @ np.array(m, dtype=float) + off


def job_pair(seed, n, big):
    r = np.random.default_rng(seed)
    dx, dy = (1, 1) if (big and n > 1100) or r.random() < .4 else (dim(r, 17), dim(r, 17))
    p, q = (1, 1) if (big and n > 1100) or r.random() < .6 else EXPS[int(r.integers(11))]
    x, ux = base(r, n, dx)
    y, uy = base(r, n, dy)
    if r.random() < .3 and dx == dy == 1:
        y = np.round((x / ux) ** 2 / max(1.0, float(np.max(np.abs(x / ux)))) * 4) / 4
        uy = 1.0
    kind = ["perm", "translate", "map", "swap", "all"][int(r.integers(5))]
    idp = np.arange(n)
    perm = r.permutation(n) if kind in ("perm", "all") else idp
    if kind == "perm" and r.random() < .3:
        perm = np.argsort(x[:, 0], kind="stable")
    eye = lambda d: ([[int(i == j) for j in range(d)] for i in range(d)], 1)
    mx, sx = mat_for(r, dx) if kind in ("map", "all") else eye(dx)
    my, sy = mat_for(r, dy) if kind in ("map", "all") else eye(dy)
    ox = off_for(r, dx, ux) if kind in ("translate", "all") else np.zeros(dx)
    oy = off_for(r, dy, uy) if kind in ("translate", "all") else np.zeros(dy)
    x2, y2 = apply(x, perm, mx, ox), apply(y, perm, my, oy)
    swap = kind == "swap" or (kind == "all" and r.random() < .5)
    if swap:
        x2, y2 = y2, x2
    o = ops()
    e = p / q if q > 1 else p
    uni = dx == 1 and dy == 1 and (p, q) == (1, 1)
    names = ["dcov_sqr", "udcov_sqr", "dcor_sqr", "udcor_sqr", "dcov", "dcor"] if not big else ["udcov_sqr", "dcov_sqr", "dcor"]
    names = [k for k in names if n > 3 or not k.startswith("u")]
    calls = []
    if uni:
        cfgs = [c for c in configs() if usable(c[0], n)]
        if big:
            cfgs = [c for c in cfgs if not (c[0].startswith("naive") and n > 900)
                    and not (c[0].endswith("no_compile") and n > 1500)]
    else:
        cfgs = [("", {})]
    for name, kw in cfgs:
        kw = dict(kw)
        if e != 1:
            kw["exponent"] = e
        for k in (names if not uni or len(cfgs) == 1 else [names[int(r.integers(len(names)))], names[0]]):
            calls.append({"op": k, "cfg": name, "a": call(o[k], x, y, **kw), "b": call(o[k], x2, y2, **kw)})
    kw = {"exponent": e} if e != 1 else {}
    g = {"kind": "inv", "what": "is not invariant (%s)" % kind, "p": p, "q": q, "tb": 33, "swap": swap,
         "x": sample(x, q), "y": sample(y, q), "x2": sample(x2, q), "y2": sample(y2, q),
         "tx": record(perm, mx, sx, ox), "ty": record(perm, my, sy, oy), "calls": calls,
         "ref": call(o["stats_sqr"], x, y, **kw),
         "uref": call(o["ustats_sqr"], x, y, **kw) if n > 3 else {"k": "none"}}
    return g


def job_energy(seed, n, m):
    import dcor
    r = np.random.default_rng(seed)
    d = dim(r, 17)
    p, q = (1, 1) if r.random() < .5 else EXPS[int(r.integers(11))]
    x, ux = base(r, n, d)
    y, uy = base(r, m, d)
    if not 2.0**-20 <= ux / uy <= 2.0**20:
        y, uy = x[r.integers(0, n, m)] + 0.0, ux
    kind = ["perm", "common map", "swap", "all"][int(r.integers(4))]
    px = r.permutation(n) if kind in ("perm", "all") else np.arange(n)
    py = r.permutation(m) if kind in ("perm", "all") else np.arange(m)
    mm, s = mat_for(r, d) if kind in ("common map", "all") else ([[int(i == j) for j in range(d)] for i in range(d)], 1)
    off = off_for(r, d, min(ux, uy)) if kind in ("common map", "all") else np.zeros(d)
    x2, y2 = apply(x, px, mm, off), apply(y, py, mm, off)
    swap = kind == "swap" or (kind == "all" and r.random() < .5)
    if swap:
        x2, y2 = y2, x2
    e = p / q if q > 1 else p
    calls = []
    for est in (["V", "U"] if min(n, m) > 1 else ["V"]):
        for avg, f in (("mean", None), ("median", np.median)):
            kw = dict(exponent=e, estimation_stat=est, average=f)
            calls.append({"op": "energy_distance", "cfg": est + "/" + avg,
                          "a": call(dcor.energy_distance, x, y, **kw), "b": call(dcor.energy_distance, x2, y2, **kw)})
    return {"kind": "einv", "what": "is not invariant (%s)" % kind, "p": p, "q": q, "tb": 36, "swap": swap,
            "x": sample(x, q), "y": sample(y, q), "x2": sample(x2, q), "y2": sample(y2, q),
            "tx": record(px, mm, s, off), "ty": record(py, mm, s, off), "calls": calls}


def c04(rng, tier):
    quick = tier == "quick"
    sizes = [2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100]
    for _ in range(24 if quick else 200):
        for n in sizes:
            s = int(rng.integers(2**31))
            yield "pair n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pair(s, n, False)
    for _ in range(3 if quick else 20):
        for n in [129, 200, 256, 257, 400, 512, 513, 700, 1000, 1024, 1025, 1500, 2000, 2048, 2049, 3000] + (
                [] if quick else [4096, 4097, 8000]):
            s = int(rng.integers(2**31))
            yield "pair n=%d seed=%d" % (n, s), lambda s=s, n=n: job_pair(s, n, True)
    for _ in range(14 if quick else 120):
        for n, m in [(1, 1), (1, 4), (2, 2), (2, 3), (3, 5), (5, 5), (7, 4), (10, 12), (16, 9), (33, 20), (60, 61), (150, 40)]:
            s = int(rng.integers(2**31))
            yield "energy n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_energy(s, n, m)
    for n, m in [(257, 300), (600, 20), (30, 1030), (1100, 900), (2100, 5), (513, 512)] * (2 if quick else 15):
        s = int(rng.integers(2**31))
        yield "energy n=%d m=%d seed=%d" % (n, m, s), lambda s=s, n=n, m=m: job_energy(s, n, m)
