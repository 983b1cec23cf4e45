"""C10: centring, products and projections over buffers."""
from __future__ import annotations

import numpy as np

from common import call, gen_sample, matrix, outcome_value


def sym(r, n, kind):
    """A symmetric matrix."""
    if kind == 0:
        m = r.integers(-20, 21, (n, n)).astype(float)
        return m + m.T
    if kind == 1:
        x = r.normal(size=(n, 2))
        return np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    if kind == 2:
        m = r.normal(size=(n, n))
        return m + m.T
    if kind == 3:
        x = gen_sample(r, n, 1, "ties")
        return np.abs(x - x.T)
    if kind == 4:
        return np.zeros((n, n))
    if kind == 5:      # a large offset
        m = np.round(r.normal(size=(n, n)) * 64)
        return m + m.T + 2.0**18
    if kind in (7, 8):  # other units
        m = np.round(r.normal(size=(n, n)) * 2**12)
        return (m + m.T) * 2.0 ** (int(r.integers(-90, -30)) if kind == 7 else int(r.integers(20, 60)))
    m = np.diag(r.integers(-5, 6, n).astype(float))
    return m


LAYOUTS = ["c", "c", "f", "strided", "reversed"]


def layout(a, how):
    if how == "f":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros((2 * a.shape[0], 2 * a.shape[1]))
        b[::2, ::2] = a
        return b[::2, ::2]
    if how == "reversed":
        return a[::-1, ::-1].copy()[::-1, ::-1]
    return a.copy()


def job_hist(seed, hist, n):
    import dcor
    r = np.random.default_rng(seed)
    names = ["a", "b", "c"]
    outs = {s["out"] for s in hist}
    bufs, desc, single = {}, {}, set()
    low = r.random() < .15          # some matrices in single precision
    for k in names:
        m = sym(r, n, int(r.integers(5 if low else 9)))
        how = LAYOUTS[int(r.integers(len(LAYOUTS)))]
        v = layout(m, how)
        if low and r.random() < .5:
            v = v.astype(np.float32)
            how += " float32"
            single.add(k)
        elif k not in outs:
            z = r.random()
            if z < .2:
                dt = [np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64][int(r.integers(8))]
                info = np.iinfo(dt)
                v = np.round(np.clip(np.abs(m) if info.min == 0 else m, max(info.min, -2**31), min(info.max, 2**32))).astype(dt)
                how = v.dtype.name
            elif z < .5:
                v.setflags(write=False)
                how += " readonly"
        bufs[k], desc[k] = v, how
    snap = lambda: {k: matrix(bufs[k]) for k in names}
    fs = {"double_centered": dcor.double_centered, "u_centered": dcor.u_centered,
          "mean_product": dcor.mean_product, "u_product": dcor.u_product}
    init = snap()
    steps, proj, over, over_low = [], None, None, False
    fresh = []          # results in new memory
    for s in hist:
        if s["op"] == "make":
            b = bufs[s["src"][0]]
            proj = {"u_projection": dcor.u_projection(b), "u_complementary_projection": dcor.u_complementary_projection(b)}
            over = matrix(b)
            over_low = s["src"][0] in single
            continue
        box = {}
        if s["op"] in proj_ops:
            f = lambda: proj[s["op"]](bufs[s["src"][0]])
        else:
            target = bufs[s["out"]] if s["out"] else None
            if target is not None and r.random() < .25:     # another view of the same memory
                target = [target[...], target.view(), target[:, :]][int(r.integers(3))]
            kw = {"out": target} if s["out"] else ({"out": None} if r.random() < .3 and s["op"].endswith("centered") else {})
            f = lambda: fs[s["op"]](*[bufs[k] for k in s["src"]], **kw)

        def g():
            box["v"] = f()
            return box["v"]
        ret = call(g)
        v = box.get("v")
        arr = isinstance(v, np.ndarray) and v.ndim == 2
        steps.append({"op": s["op"], "cfg": ",".join("%s:%s" % (k, desc[k]) for k in s["src"]) + (" out=" + s["out"] if s["out"] else ""),
                      "src": s["src"], "out": s["out"], "over": over or init["a"], "ret": ret,
                      "same": bool(s["out"]) and v is target,
                      "shares": bool(arr and any(np.shares_memory(v, b) for b in [*bufs.values(), *fresh])),
                      "fl": bool(np.issubdtype(getattr(v, "dtype", np.int64), np.floating)),
                      "after": snap()})
        if single & {*s["src"], s["out"]} or (over_low and s["op"] in proj_ops):
            steps[-1]["tb"] = 12
        if arr and not s["out"]:
            fresh.append(v)
    return {"kind": "ops", "names": names, "init": init, "tb": 36, "steps": steps}


proj_ops = ("u_projection", "u_complementary_projection")


def c10(rng, tier, gen):
    k = 0
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 33]
    quick = tier == "quick"
    for key in sorted(gen):
        hs = gen[key]
        cap = {"long": 900 if quick else 12000, "longer": 150 if quick else 2500}.get(key, len(hs))
        if len(hs) > cap:      # the simulator emits all the successors of the last state
            hs = [hs[i] for i in sorted(rng.choice(len(hs), cap, replace=False).tolist())]
        for h in hs:
            n = sizes[int(rng.integers(len(sizes)))]
            if rng.random() < (.035 if key == "pairs" else .01):
                n = [48, 64, 65, 80, 100, 127, 128, 129, 150, 200][int(rng.integers(10))]
            if any(s["op"] in proj_ops or s["op"] == "u_product" or s["op"] == "make" for s in h):
                n = max(n, 4)
            if any(s["op"] == "u_centered" for s in h):
                n = max(n, 3)
            s = int(rng.integers(2**31))
            yield "%s %d n=%d seed=%d" % (key, k, n, s), lambda s=s, h=h, n=n: job_hist(s, h, n)
            k += 1
