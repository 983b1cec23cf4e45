"""C06: reproducibility of the tests for every number of jobs and schedule."""
from __future__ import annotations

import hashlib
import json
import sys

import joblib
import numpy as np

import scen_energy
import scripted
from common import gen_sample, sample
from scen_test import STATES, draw, make_state, outcome_test, pick_seed, text


def digest(rs):
    """What a random state yields next (on a copy)."""
    s = rs.get_state() if isinstance(rs, np.random.RandomState) else rs.bit_generator.state
    return hashlib.sha1(repr(s).encode()).hexdigest()


def global_digest():
    return hashlib.sha1(repr(np.random.get_state()).encode()).hexdigest()


def problem(r, which, exact, big=False):
    """A test: the function of the options, and the description for the specification."""
    import dcor
    if which == "energy":
        sizes = [(4, 4), (2, 2, 2), (4, 4, 4)][int(r.integers(3))] if exact else [(5, 4), (3, 4, 3), (6, 5), (2, 3, 3, 2)][int(r.integers(4))]
        if big and not exact:
            sizes = [(30, 25), (15, 20, 12)][int(r.integers(2))]
        ss = [(r.integers(0, 9, (n, 1)).astype(float) if exact else gen_sample(r, n, 2, "double")) for n in sizes]
        est = "V" if exact or r.random() < .5 else "U"
        f = lambda **kw: dcor.homogeneity.energy_test(*ss, estimation_stat=est, **kw)
        g = {"test": "energy", "est": est, "avg": "mean", "pool": scen_energy.pooled(ss, 1), "sizes": list(sizes)}
        return f, g, sum(sizes)
    if exact:
        n = 8 if which == "dcov" else 4
        x, y = r.integers(0, 30, (n, 1)).astype(float), r.integers(0, 30, (n, 1)).astype(float)
        z = np.full((n, 1), 1.0)
        tot = lambda a: np.abs(a - a.T).sum()
        while which == "pdcov" and (tot(x) % 3 or tot(y) % 3):
            x, y = r.integers(0, 30, (n, 1)).astype(float), r.integers(0, 30, (n, 1)).astype(float)
    else:
        n = int(r.choice([33, 64, 100])) if big else int(r.integers(9, 14))
        x, z = gen_sample(r, n, 2, "double"), gen_sample(r, n, 1, "double")
        y = x[:, :1] * .5 + gen_sample(r, n, 1, "double")
    g = {"test": which, "x": sample(x), "y": sample(y), "z": sample(z)}
    if which == "dcov":
        return (lambda **kw: dcor.independence.distance_covariance_test(x, y, **kw)), g, n
    return (lambda **kw: dcor.independence.partial_distance_covariance_test(x, y, z, **kw)), g, n


def finish(g, exact, perms, calls, also):
    g.update({"kind": "test", "judge": "both", "p": 1, "q": 1, "tb": 33, "exact": exact,
              "perms": perms, "calls": calls, "also": also})
    return g


def job_schedules(seed, scheds, which):
    """The tasks finish in the orders chosen by TLC."""
    r = np.random.default_rng(seed)
    exact = bool(r.random() < .5)
    f, g, n = problem(r, which, exact)
    nr = scheds[0]["n"]
    nj = max(2, scheds[0]["window"] // 2)
    sd = pick_seed(r)
    perms = draw(np.random.RandomState(sd), n, nr)
    ref = outcome_test(lambda: f(num_resamples=nr, random_state=sd, n_jobs=1))
    calls = [{"cfg": "n_jobs=1", "out": ref}]
    also = []
    for s in scheds:
        before = global_digest()
        kind = STATES[int(r.integers(3))]
        st, twin = make_state(kind, sd)
        draw(twin, n, nr)
        scripted.ORDERS.clear()
        scripted.ORDERS.append(s["order"])
        with joblib.parallel_config(backend="scripted"):
            o = outcome_test(lambda: f(num_resamples=nr, random_state=st, n_jobs=nj))
        cfg = "tasks finish in order %s, %s" % (s["order"], kind)
        calls.append({"cfg": cfg, "out": o})
        also.append({"what": which + " test: the p-value depends on the schedule: " + cfg, "a": text(ref, "p"), "b": text(o, "p")})
        if kind == "RandomState":
            also.append({"what": which + " test: the random state is not advanced by N permutations: " + cfg,
                         "a": digest(twin), "b": digest(st)})
        also.append({"what": which + " test: the global random state was touched: " + cfg, "a": before, "b": global_digest()})
    return finish(g, exact, perms, calls, also)


def job_backends(seed, which, combos, nr=12, big=False):
    """Real backends; the random state in all its forms."""
    r = np.random.default_rng(seed)
    exact = bool(r.random() < .5) and not big
    f, g, n = problem(r, which, exact, big)
    sd = pick_seed(r)
    gen = bool(r.random() < .35)
    kinds = ["Generator"] if gen else STATES[:3]
    used = int(r.integers(4))       # draws made before
    if used and not gen:
        kinds = ["RandomState"]

    def state(kind):
        st, twin = make_state(kind, sd)
        if kind in ("RandomState", "Generator"):
            for _ in range(used):
                st.permutation(5), twin.permutation(5)
        return st, twin
    perms = draw(state(kinds[-1])[1], n, nr)
    calls, also = [], []
    ref = None
    for backend, nj in combos:
        for kind in kinds:
            before = global_digest()
            st, twin = state(kind)
            draw(twin, n, nr)
            kw = {} if nj == "default" else {"n_jobs": nj}
            run = lambda: outcome_test(lambda: f(num_resamples=nr, random_state=st, **kw))
            if backend:
                with joblib.parallel_config(backend=backend):
                    o = run()
            else:
                o = run()
            cfg = "backend=%s n_jobs=%s %s" % (backend or "default", nj, kind)
            calls.append({"cfg": cfg, "out": o})
            ref = ref or o
            also.append({"what": which + " test: another p-value: " + cfg, "a": text(ref, "p"), "b": text(o, "p")})
            if kind in ("RandomState", "Generator"):
                also.append({"what": which + " test: the random state is not advanced by N permutations: " + cfg,
                             "a": digest(twin), "b": digest(st)})
            also.append({"what": which + " test: the global random state was touched: " + cfg, "a": before, "b": global_digest()})
    return finish(g, exact, perms, calls, also)


def job_shared(seed):
    """Consecutive tests that share a generator object."""
    r = np.random.default_rng(seed)
    kind = ["RandomState", "Generator"][int(r.integers(2))]
    sd = pick_seed(r)
    st, twin = make_state(kind, sd)
    k = int(r.integers(2, 5))
    out = None
    also = []
    # every test is judged; the last one is the group, the others its companions
    groups = []
    for i in range(k):
        which = ["dcov", "pdcov", "energy"][int(r.integers(3))]
        exact = bool(r.random() < .5)
        f, g, n = problem(r, which, exact)
        nr = int(r.choice([0, 1, 3, 8]))
        nj = [1, 2, 3, None, -1][int(r.integers(5))]
        perms = draw(twin, n, nr)
        with joblib.parallel_config(backend="threading"):
            o = outcome_test(lambda: f(num_resamples=nr, random_state=st, n_jobs=nj))
        cfg = "test %d of those sharing a %s, n_jobs=%s" % (i + 1, kind, nj)
        groups.append(finish(g, exact, perms, [{"cfg": cfg, "out": o}],
                             [{"what": which + " test: the random state is not advanced by N permutations: " + cfg,
                               "a": digest(twin), "b": digest(st)}]))
    return {"kind": "many", "groups": groups}


def c06(rng, tier, gen):
    quick = tier == "quick"
    seed = lambda: int(rng.integers(2**31))
    tests = ["dcov", "pdcov", "energy"]
    combos = [("", 1), ("", 2), ("", 3), ("loky", 2)]
    # processes: few scenarios, because the workers have to import the library
    for w in tests:
        s = seed()
        if w == "dcov" or not quick:
            yield "processes %s seed=%d" % (w, s), lambda s=s, w=w: job_backends(s, w, combos)
    for key in sorted(gen or {}):
        scheds = list(gen[key])
        idx = rng.permutation(len(scheds))
        scheds = [scheds[i] for i in idx]
        step = 16
        for i in range(0, len(scheds), step):
            s = seed()
            w = tests[(i // step) % 3]
            part = scheds[i:i + step]
            yield "schedules %s %d.. %s seed=%d" % (key, i, w, s), lambda s=s, w=w, part=part: job_schedules(s, part, w)
    thr = [("", 1), ("", "default"), ("threading", None), ("threading", 2), ("threading", 3), ("threading", 7), ("threading", -1), ("sequential", 4)]
    for _ in range(14 if quick else 150):
        for w in tests:
            s = seed()
            nr = [0, 1, 2, 5, 12, 30][s % 6]
            yield "threads %s N=%d seed=%d" % (w, nr, s), lambda s=s, w=w, nr=nr: job_backends(s, w, thr, nr)
        if _ % 5 == 0:      # many resamples, larger samples
            for i, w in enumerate(tests):
                s = seed()
                nr = [100, 257, 64][(i + _) % 3] if s % 2 else [999, 500, 128][(i + _) % 3]
                yield "threads %s N=%d seed=%d" % (w, nr, s), (
                    lambda s=s, w=w, nr=nr: job_backends(s, w, [thr[0], thr[4 + s % 3]], nr, nr < 300))
        s = seed()
        yield "shared seed=%d" % s, lambda s=s: job_shared(s)
