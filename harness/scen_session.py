"""C12: sessions of calls over shared arguments, in several threads."""
from __future__ import annotations

import hashlib
import os
import sys
import threading

import numpy as np

import scen_energy
import scen_test
from common import call as scen_call, gen_sample, is_finite, j_num, matrix, outcome_value, sample
from drive import REPO
from scen_pair import int_line, j_line, ops

PKG = os.path.join(os.path.realpath(REPO), "dcor") + os.sep


# ---------------------------------------------------------------- arguments
KINDS = ["p", "pcol", "prev", "q", "qro", "qstep", "m", "mt", "mcol", "mcol2", "mro", "i", "sym"]


class Args:
    """The arrays of a session: views of a few shared buffers."""

    def __init__(self, r, n, names):
        self.r, self.n = r, n
        self.base = {}
        for b in ("P", "Q", "M", "W", "I", "S"):
            self.base[b] = self.fresh(b)
        kinds = r.choice(len(KINDS), len(names), replace=r.random() < .15)
        self.kind = {k: KINDS[int(i)] for k, i in zip(names, kinds)}
        self.obj = {k: self.view(v) for k, v in self.kind.items()}

    def fresh(self, b):
        r, n = self.r, self.n
        fam = ["ints", "ties", "perm", "normal", "runs"][int(r.integers(5))]
        if b == "P":
            return gen_sample(r, n, 1, fam)[:, 0].copy()
        if b == "Q":
            return gen_sample(r, 2 * n, 1, fam)[:, 0].copy()
        if b == "M":
            return gen_sample(r, n, 2, fam)
        if b == "W":
            return gen_sample(r, n, 2, fam).T.copy()
        if b == "I":
            return r.integers(-30, 30, n)
        m = r.integers(0, 20, (n, n)).astype(float)
        return m + m.T

    BASE = {"p": "P", "pcol": "P", "prev": "P", "q": "Q", "qro": "Q", "qstep": "Q", "m": "M", "mt": "W", "mcol": "M",
            "mcol2": "M", "mro": "M", "i": "I", "sym": "S"}

    def view(self, kind):
        b, n = self.base, self.n
        v = {"p": lambda: b["P"], "pcol": lambda: b["P"][:, None], "prev": lambda: b["P"][::-1],
             "q": lambda: b["Q"][:n], "qro": lambda: b["Q"][:n][:], "qstep": lambda: b["Q"][::2],
             "m": lambda: b["M"], "mt": lambda: b["W"].T, "mcol": lambda: b["M"][:, 0], "mcol2": lambda: b["M"][:, 1:],
             "mro": lambda: b["M"][:], "i": lambda: b["I"], "sym": lambda: b["S"]}[kind]()
        if kind.endswith("ro"):
            v.flags.writeable = False
        return v

    def write(self, name):
        """The user overwrites the buffer, or makes a new one."""
        b = self.BASE[self.kind[name]]
        if self.r.random() < .6:
            self.base[b][...] = self.fresh(b)
        else:
            self.base[b] = self.fresh(b)
            for k, kind in self.kind.items():
                if self.BASE[kind] == b:
                    self.obj[k] = self.view(kind)

    def now(self, name):
        """What the argument contains, as a sample."""
        return np.array(self.obj[name], dtype=float).reshape(self.n, -1)

    def digest(self):
        h = hashlib.sha1()
        for b in sorted(self.base):
            h.update(self.base[b].tobytes())
        for k in sorted(self.obj):
            o = self.obj[k]
            h.update(repr((k, o.shape, o.strides, o.dtype, o.flags.writeable)).encode())
        return h.hexdigest()


# ---------------------------------------------------------------- functions
def test_out(v):
    import dcor
    if not isinstance(v, dcor.HypothesisTest):
        return {"k": "other", "t": type(v).__name__}
    num = lambda u: {"k": "val", "v": j_num(float(u))} if is_finite(float(u)) else {"k": "nan", "s": str(float(u))}
    return {"k": "test", "p": num(v.pvalue), "s": num(v.statistic)}


def t_out(v):
    return {"k": "ttest", "s": outcome_value(v.statistic), "p": outcome_value(v.pvalue)}


def fn_pair(r):
    names = list(ops())
    op = names[int(r.integers(len(names)))]
    meth = [None, "naive", "avl", "mergesort"][int(r.integers(4))]
    p, q = (1, 1) if r.random() < .7 else (1, 2)
    slow = r.random() < .3

    def prep(A, a, b, c):
        import dcor
        x, y = A.now(a), A.now(b)
        m = meth if x.shape[1] == y.shape[1] == 1 and A.n > 3 else (meth and "naive")
        pp, qq = (p, q) if m in (None, "naive") else (1, 1)
        kw = {} if m is None else {"method": m}
        if pp != qq:
            kw["exponent"] = pp / qq
        if slow:
            kw["compile_mode"] = dcor.CompileMode.NO_COMPILE
        u, v = A.obj[a], A.obj[b]
        return (lambda: ops()[op](u, v, **kw)), outcome_value, lambda o: {
            "kind": "pair", "p": pp, "q": qq, "tb": 33, "x": sample(x, qq), "y": sample(y, qq),
            "calls": [{"op": op, "cfg": "%s %s" % (meth, A.kind), "out": o}]}
    return op, prep


def fn_energy(r):
    import dcor
    est, avg = "UV"[int(r.integers(2))], ["mean", "median"][int(r.integers(2))]
    op = ["energy", "energy_test_statistic"][int(r.integers(2))]
    e = [1, .5][int(r.integers(2))]
    f = dcor.energy_distance if op == "energy" else dcor.homogeneity.energy_test_statistic
    g = {"mean": [None, np.mean][int(r.integers(2))], "median": np.median}[avg]

    def prep(A, a, b, c):
        x, y = A.now(a), A.now(b)
        u, v = A.obj[a], A.obj[b]
        if x.shape[1] != y.shape[1] or u.ndim != v.ndim:
            y, v = x, u
        q = 2 if e == .5 else 1
        return (lambda: f(u, v, exponent=e, estimation_stat=est, average=g)), outcome_value, lambda o: {
            "kind": "energy", "p": 1, "q": q, "tb": 36, "x": sample(x, q), "y": sample(y, q),
            "calls": [{"op": op, "cfg": "%s/%s %s" % (est, avg, A.kind), "est": est, "avg": avg, "out": o}]}
    return op, prep


def fn_dist(r):
    import dcor
    mode = int(r.integers(2))
    p, q = [(1, 1), (1, 2), (3, 2), (2, 1)][int(r.integers(4))]
    kw = {} if p == q else {"exponent": p / q}

    def prep(A, a, b, c):
        x, y = A.now(a), A.now(b)
        u, v = A.obj[a], A.obj[b]
        two = mode == 1 and x.shape[1] == y.shape[1] and u.ndim == v.ndim
        f = dcor.distances.pairwise_distances
        return (lambda: f(u, v, **kw) if two else f(u, **kw)), outcome_value, lambda o: {
            "kind": "dist", "x": sample(x, q), "y": sample(y, q), "two": two, "p": p, "q": q, "tb": 36,
            "calls": [{"cfg": str(A.kind), "out": o, "ns": "numpy"}]}
    return "pairwise_distances", prep


def fn_partial(r):
    import dcor
    op = ["pdcov", "pdcor"][int(r.integers(2))]
    f = {"pdcov": dcor.partial_distance_covariance, "pdcor": dcor.partial_distance_correlation}[op]

    def prep(A, a, b, c):
        x, y, z = A.now(a), A.now(b), A.now(c)
        u, v, w = A.obj[a], A.obj[b], A.obj[c]
        return (lambda: f(u, v, w)), outcome_value, lambda o: {
            "kind": "partial", "x": sample(x), "y": sample(y), "z": sample(z), "tb": 33, "same": False,
            "calls": [{"op": op, "cfg": str(A.kind), "out": o}]}
    return op, prep


def fn_test(r):
    import dcor
    which = ["dcov", "pdcov", "energy"][int(r.integers(3))]
    nr, seed = int(r.choice([0, 3, 9])), int(r.integers(1000))
    p, q = [(1, 1), (1, 1), (1, 2), (3, 2)][int(r.integers(4))]
    e = p / q
    D, H = dcor.independence, dcor.homogeneity

    def prep(A, a, b, c):
        x, y, z = A.now(a), A.now(b), A.now(c)
        u, v, w = A.obj[a], A.obj[b], A.obj[c]
        g = {"kind": "test", "test": which, "judge": "both", "p": p, "q": q, "tb": 33, "exact": False}
        n = A.n
        if which == "dcov":
            g.update(x=sample(x, q), y=sample(y, q))
            f = lambda: D.distance_covariance_test(u, v, exponent=e, num_resamples=nr, random_state=seed)
        elif which == "pdcov":
            g.update(x=sample(x, q), y=sample(y, q), z=sample(z, q))
            f = lambda: D.partial_distance_covariance_test(u, v, w, exponent=e, num_resamples=nr, random_state=seed)
        else:
            if x.shape[1] != y.shape[1] or u.ndim != v.ndim:
                y, v = x, u
            g.update(pool=scen_energy.pooled([x, y], q), sizes=[n, n], est="V", avg="mean")
            n = 2 * n
            f = lambda: H.energy_test(u, v, exponent=e, num_resamples=nr, random_state=seed)
        g["perms"] = scen_test.draw(np.random.RandomState(seed), n, nr)
        return f, test_out, lambda o: dict(g, calls=[{"cfg": "resamples=%d %s" % (nr, A.kind), "out": o}])
    return which + " test", prep


def fn_t(r):
    import dcor

    def prep(A, a, b, c):
        x, y = A.now(a), A.now(b)
        u, v = A.obj[a], A.obj[b]
        return (lambda: dcor.independence.distance_correlation_t_test(u, v)), t_out, lambda o: {
            "kind": "ttest", "x": sample(x), "y": sample(y), "p": 1, "q": 1, "tb": 33,
            "calls": [{"op": "t_test", "cfg": str(A.kind), "out": o}]}
    return "t_test", prep


def fn_rows(r):
    import dcor
    names = ["dcov_sqr", "dcov", "udcov_sqr", "dcor_sqr", "dcor", "udcor_sqr"]
    op = names[int(r.integers(6))]
    k = int(r.integers(2))

    def prep(A, a, b, c):
        x, y = A.now(a), A.now(b)
        u, v = A.obj[a], A.obj[b]
        rows = [(x, y), (y, x)] if k and x.shape == y.shape and u.ndim == v.ndim else [(x, y)]
        ru, rv = ([u, v], [v, u]) if len(rows) == 2 else ([u], [v])
        return (lambda: dcor.rowwise(ops()[op], ru, rv)), outcome_value, lambda o: {
            "kind": "rowwise", "rows": [{"x": sample(s), "y": sample(t)} for s, t in rows], "p": 1, "q": 1, "tb": 33,
            "calls": [{"op": op, "cfg": str(A.kind), "expect": "value", "out": o}]}
    return "rowwise " + op, prep


def fn_aff(r):
    import dcor
    op = ["af_inv", "af_inv_sqr"][int(r.integers(2))]
    f = {"af_inv": dcor.distance_correlation_af_inv, "af_inv_sqr": dcor.distance_correlation_af_inv_sqr}[op]

    def prep(A, a, b, c):
        pick = [k for k in (a, b, c) if A.kind[k] != "sym"] or None
        if pick is None:
            return fn_pair(r)[1](A, a, b, c)
        a2, b2 = pick[0], pick[-1]
        x, y = A.now(a2), A.now(b2)
        u, v = A.obj[a2], A.obj[b2]
        return (lambda: f(u, v)), outcome_value, lambda o: {
            "kind": "aff", "x": sample(x), "y": sample(y), "tb": 20, "calls": [{"op": op, "cfg": str(A.kind), "out": o}]}
    return op, prep


def fn_centre(r):
    import dcor
    op = ["double_centered", "u_centered"][int(r.integers(2))]

    def prep(A, a, b, c):
        s = next((k for k in (a, b, c) if A.kind[k] == "sym"), None)
        if s is None:
            x = A.now(a)
            m = np.abs(x[:, :1] - x[:, :1].T)
        else:
            m = A.obj[s]
        before = matrix(m)
        box = {}

        def f():
            box["v"] = getattr(dcor, op)(m)
            return box["v"]

        def build(o):
            v = box.get("v")
            arr = isinstance(v, np.ndarray)
            return {"kind": "ops", "names": ["a"], "init": {"a": before}, "tb": 36, "steps": [{
                "op": op, "cfg": str(A.kind), "src": ["a"], "out": "", "over": before, "ret": o, "same": False,
                "shares": bool(arr and np.shares_memory(v, m)), "fl": bool(arr and np.issubdtype(v.dtype, np.floating)),
                "after": {"a": matrix(m)}}]}
        return f, outcome_value, build
    return op, prep


FNS = [fn_pair, fn_pair, fn_pair, fn_energy, fn_dist, fn_dist, fn_partial, fn_test, fn_test, fn_t, fn_rows, fn_aff, fn_centre]


def result_digest(v):
    """What the returned object contains now."""
    if isinstance(v, np.ndarray):
        return hashlib.sha1(v.tobytes()).hexdigest() + str(v.shape)
    if hasattr(v, "pvalue"):
        return "%r %r" % (v.pvalue, v.statistic)
    return repr(v)


# ------------------------------------------------------------------ threads
class Call(threading.Thread):
    """A call that stops before its k-th line inside the package, and goes on
    when told."""

    def __init__(self, f, k):
        super().__init__(daemon=True)
        self.f, self.left = f, k
        self.event = threading.Event()      # paused or done
        self.go = threading.Event()
        self.value = self.error = None

    def trace(self, frame, what, arg):
        if not os.path.realpath(frame.f_code.co_filename).startswith(PKG):
            return None
        return self.line

    def line(self, frame, what, arg):
        if what == "line" and not self.go.is_set():
            self.left -= 1
            if self.left <= 0:
                self.event.set()
                self.go.wait(100)
                self.go.set()
        return self.line

    def run(self):
        sys.settrace(self.trace)
        try:
            self.value = self.f()
        except Exception as exc:  # noqa: BLE001
            self.error = exc
        finally:
            sys.settrace(None)
            self.event.set()

    def begin(self):
        self.start()
        self.event.wait(20)

    def end(self, others):
        self.go.set()
        self.join(5)
        if self.is_alive():      # it may wait for a lock of another call
            for o in others:
                o.go.set()
            self.join(100)
        return not self.is_alive()


def job_session(seed, log, n):
    r = np.random.default_rng(seed)
    A = Args(r, n, ["a", "b", "c"])
    fns = {k: FNS[int(r.integers(len(FNS)))](r) for k in ("f", "g")}
    groups, also, kept, calls = [], [], [], {}
    digest = A.digest()
    for ev in log:
        if ev["ev"] == "begin":
            third = ["a", "b", "c"][int(r.integers(3))]
            f, out, build = fns[ev["fn"]][1](A, ev["a"], ev["b"], third)
            c = Call(f, int(2 ** r.uniform(0, 8)))
            c.begin()
            calls[ev["t"]] = (c, out, build, fns[ev["fn"]][0])
        elif ev["ev"] == "end":
            c, out, build, name = calls.pop(ev["t"])
            if not c.end([o[0] for o in calls.values()]):
                o = {"k": "crash"}
            elif c.error is not None:
                o = {"k": "err", "t": type(c.error).__name__, "m": str(c.error)[:160]}
            else:
                o = out(c.value)
            o["w"] = []
            groups.append(build(o))
            kept.append([c.value, result_digest(c.value), name])
        elif ev["ev"] == "write":
            A.write(ev["a"])
            digest = A.digest()
        else:
            v = kept[ev["k"] - 1]
            if isinstance(v[0], np.ndarray) and v[0].flags.writeable and v[0].ndim:
                v[0].fill(-777)
                v[1] = result_digest(v[0])
        also.append({"what": "an argument was modified", "a": digest, "b": A.digest()})
    for v, d, name in kept:
        also.append({"what": "the result of %s changed afterwards" % name, "a": d, "b": result_digest(v)})
    groups.append({"kind": "equal", "calls": also})
    return {"kind": "many", "groups": groups}


def job_hammer(seed, n, threads, each):
    """Concurrent calls, freely scheduled."""
    r = np.random.default_rng(seed)
    A = Args(r, n, ["a", "b", "c"])
    digest = A.digest()
    plan = []
    for _ in range(threads * each):
        name, prep = FNS[int(r.integers(len(FNS)))](r)
        a, b, c = (["a", "b", "c"][int(i)] for i in r.integers(0, 3, 3))
        plan.append((name,) + prep(A, a, b, c))
    res = [None] * len(plan)
    start = threading.Barrier(threads)

    def work(t):
        start.wait()
        for i in range(t, len(plan), threads):
            try:
                res[i] = (plan[i][1](), None)
            except Exception as exc:  # noqa: BLE001
                res[i] = (None, exc)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(200)
    sys.setswitchinterval(old)
    groups = []
    for (name, _, out, build), v in zip(plan, res):
        if v is None:
            o = {"k": "crash"}
        elif v[1] is not None:
            o = {"k": "err", "t": type(v[1]).__name__, "m": str(v[1])[:160]}
        else:
            o = out(v[0])
        o["w"] = []
        groups.append(build(o))
    groups.append({"kind": "equal", "calls": [{"what": "an argument was modified", "a": digest, "b": A.digest()}]})
    return {"kind": "many", "groups": groups}


def job_every(seed, i, n):
    """Two calls of a function with different arguments: the second one
    happens while the first is stopped at every line it executes."""
    r = np.random.default_rng(seed)
    name, prep = FNS[i](r)
    two = []
    same = r.random() < .5
    for _ in range(2):
        A = Args(r, n, ["a", "b", "c"])
        if same and two:                # the same kinds of arguments
            A.kind = dict(two[0][0].kind)
            A.obj = {k: A.view(v) for k, v in A.kind.items()}
        two.append((A,) + prep(A, "a", "b", "c"))
    lines = []

    class Lines(Call):
        def line(self, frame, what, arg):
            if what == "line":
                lines.append((frame.f_code.co_filename, frame.f_lineno))
            return self.line
    c = Lines(two[0][1], 1)
    c.start()
    c.join(60)
    first, last = {}, {}
    for k, at in enumerate(lines[:20000]):
        first.setdefault(at, k + 1)
        last[at] = k + 1
    ks = sorted(set(first.values()) | set(last.values()))
    if len(ks) > 150:
        ks = sorted(r.choice(ks, 150, replace=False).tolist())
    digest = [t[0].digest() for t in two]
    seen = [{}, {}]
    for k in ks:
        c, d = Call(two[0][1], k), Call(two[1][1], 10**9)
        c.begin()
        d.begin()
        d.end([c])
        c.end([])
        for j, t in enumerate((c, d)):
            o = ({"k": "crash"} if t.is_alive() else two[j][2](t.value) if t.error is None
                 else {"k": "err", "t": type(t.error).__name__, "m": str(t.error)[:160]})
            o["w"] = []
            seen[j].setdefault(repr(o), o)
    groups = []
    for j in range(2):
        for o in list(seen[j].values())[:8]:
            groups.append(two[j][3](o))
    groups.append({"kind": "equal", "calls": [
        {"what": "an argument was modified", "a": digest[j], "b": two[j][0].digest()} for j in range(2)]})
    return {"kind": "many", "groups": groups}


def job_shapes(seed):
    """The same numbers, or the same bytes, seen as samples of several shapes."""
    r = np.random.default_rng(seed)
    k = int(r.choice([2, 3, 4]))
    n = 12 * k
    if r.random() < .6:
        b = r.integers(0, int(r.choice([4, 50])), n).astype(float)
        views = [b, b[:, None], b.reshape(-1, 2), b.reshape(-1, 3), b.reshape(-1, 4), b.reshape(2, -1).T, b.reshape(3, -1).T,
                 b.reshape(-1, 2)[::-1], b[::-1]]
    else:
        b = r.integers(-128, 128, n).astype(np.int8)
        views = [b, b.view(np.uint8), b.reshape(-1, 2), b.view(np.uint8).reshape(-1, 2), b.view(np.int16), b.view(np.uint16),
                 b.view(">i2").astype(np.int16)]
    groups, also = [], []
    names = list(ops())
    import dcor
    digest = b.tobytes()
    pq = [(1, 1), (1, 1), (1, 2)]
    for _ in range(9):
        u = views[int(r.integers(len(views)))]
        same = [v for v in views if len(v) == len(u)]
        v = same[int(r.integers(len(same)))]
        p, q = pq[int(r.integers(3))]
        x, y = (np.array(t, dtype=float).reshape(len(t), -1) for t in (u, v))
        op = names[int(r.integers(len(names)))]
        kw = {} if p == q else {"exponent": p / q}
        o = scen_call(ops()[op], u, v, **kw)
        groups.append({"kind": "pair", "p": p, "q": q, "tb": 33, "x": sample(x, q), "y": sample(y, q),
                       "calls": [{"op": op, "cfg": "shapes %s %s" % (u.shape, v.shape), "out": o}]})
        o = scen_call(dcor.distances.pairwise_distances, u, **kw)
        groups.append({"kind": "dist", "x": sample(x, q), "y": sample(y, q), "two": False, "p": p, "q": q, "tb": 36,
                       "calls": [{"cfg": "shape %s" % (u.shape,), "out": o, "ns": "numpy"}]})
        if x.shape[1] == y.shape[1] and u.ndim == v.ndim:
            o = scen_call(dcor.energy_distance, u, v, **kw)
            groups.append({"kind": "energy", "p": p, "q": q, "tb": 36, "x": sample(x, q), "y": sample(y, q),
                           "calls": [{"op": "energy", "cfg": "shapes", "est": "V", "avg": "mean", "out": o}]})
        if r.random() < .25:
            b[int(r.integers(n))] += 1
            digest = b.tobytes()
        also.append({"what": "an argument was modified", "a": digest.hex(), "b": b.tobytes().hex()})
    groups.append({"kind": "equal", "calls": also})
    return {"kind": "many", "groups": groups}


def job_long(seed, n, threads):
    """Many observations, the same arrays again and again, in several threads."""
    r = np.random.default_rng(seed)
    names = ["dcov_sqr", "dcov", "udcov_sqr", "dcor_sqr", "dcor", "udcor_sqr", "stats_sqr"]
    buf = {k: int_line(r, n).astype(float) for k in "ab"}
    groups, also = [], []
    for rnd in range(3):
        now = {k: v.astype(int) for k, v in buf.items()}
        digest = hashlib.sha1(buf["a"].tobytes() + buf["b"].tobytes()).hexdigest()
        plan = []
        for _ in range(threads):
            u, v = ("ab"[int(i)] for i in r.integers(0, 2, 2))
            op = names[int(r.integers(len(names)))]
            m = [{}, {}, {"method": "mergesort"}, {"method": "avl"}][int(r.integers(4))]
            plan.append((u, v, op, m))
        res = [None] * threads

        def one(i, u, v, op, m):
            res[i] = scen_call(ops()[op], buf[u], buf[v], **m)
        ts = [threading.Thread(target=one, args=(i,) + p, daemon=True) for i, p in enumerate(plan)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
        for (u, v, op, m), o in zip(plan, res):
            groups.append({"kind": "pair", "line": True, "p": 1, "q": 1, "tb": 30, "x": j_line(now[u], 0), "y": j_line(now[v], 0),
                           "calls": [{"op": op, "cfg": "long %s %s%s round %d" % (m, u, v, rnd), "out": o or {"k": "crash"}}]})
        also.append({"what": "an argument was modified", "a": digest,
                     "b": hashlib.sha1(buf["a"].tobytes() + buf["b"].tobytes()).hexdigest()})
        k = "ab"[int(r.integers(2))]
        if r.random() < .5:
            buf[k][...] = int_line(r, n)
        else:
            buf[k][int(r.integers(n))] += 100
    groups.append({"kind": "equal", "calls": also})
    return {"kind": "many", "groups": groups}


def job_keep(seed, n):
    """Results that are arrays: later calls do not change them, and what the
    user does with them does not change later calls."""
    import dcor
    r = np.random.default_rng(seed)
    P = dcor.distances.pairwise_distances
    d = int(r.choice([1, 1, 2, 5]))
    m = n if r.random() < .5 else int(r.choice([1, 2, n + 3]))
    fam = lambda: ["ints", "normal", "ties", "double"][int(r.integers(4))]
    xs = [gen_sample(r, n, d, fam()) for _ in range(3)]
    ys = [gen_sample(r, m, d, fam()) for _ in range(3)]
    some = lambda k: np.unique(np.concatenate([[0, k - 1], r.integers(0, k, 9)]))
    ix, iy = some(n), some(m)
    rows = [r.normal(size=(3, max(4, n))) for _ in range(3)]
    kept, also, groups = [], [], []

    def distances(i, two):
        p, q = [(1, 1), (1, 1), (1, 2), (3, 2)][int(r.integers(4))]
        kw = {} if p == q else {"exponent": p / q}
        box = []

        def f(*args):
            box.append(P(*args, **kw))
            return box[0][np.ix_(ix, iy if two else ix)]
        o = scen_call(f, xs[i], ys[i]) if two else scen_call(f, xs[i])
        groups.append({"kind": "dist", "x": sample(xs[i][ix], q), "y": sample(ys[i][iy], q), "two": two, "p": p, "q": q, "tb": 36,
                       "calls": [{"cfg": "n=%d m=%d kept results" % (n, m), "out": o}]})
        return box[0] if box else None

    def other(i):
        k = int(r.integers(7))
        if k < 3:
            a = P(xs[i])
            if k == 0:
                return dcor.double_centered(a)
            if n < 4:
                return a
            return dcor.u_centered(a) if k == 1 else dcor.u_projection(dcor.u_centered(a))(a)
        if k < 5:
            return dcor.rowwise([dcor.distance_covariance_sqr, dcor.distance_correlation][k - 3], rows[i], rows[(i + 1) % 3])
        if k == 5:
            dcor.energy_distance(xs[i], ys[i])
        elif n < 1000:
            dcor.distance_covariance(xs[i], xs[(i + 1) % 3], method="naive")
        return None

    for step in range(9):
        i = int(r.integers(3))
        v = distances(i, bool(r.integers(2))) if r.random() < .6 else other(i)
        for t, (u, digest) in enumerate(kept):
            also.append({"what": "step %d modified the result of step %d" % (step, t), "a": digest, "b": hashlib.sha1(u.tobytes()).hexdigest()})
        if v is None:
            continue
        for t, (u, _) in enumerate(kept):
            also.append({"what": "the results of steps %d and %d share memory" % (t, step), "a": "False", "b": str(np.shares_memory(u, v))})
        if v.flags.writeable and r.random() < .5:
            v[...] = -1 - step
        kept.append((v, hashlib.sha1(v.tobytes()).hexdigest()))
    groups.append({"kind": "equal", "calls": also})
    return {"kind": "many", "groups": groups}


def c12(rng, tier, gen):
    quick = tier == "quick"
    sizes = [4, 5, 6, 7, 8, 9, 12, 16, 17]
    cap = {"short": 700, "long": 500, "threads": 350}
    k = 0
    for key in sorted(gen):
        hs = gen[key]
        c = cap[key] * (1 if quick else 12)
        reps = 1
        if len(hs) > c:
            hs = [hs[i] for i in sorted(rng.choice(len(hs), c, replace=False).tolist())]
        else:
            reps = max(1, c // len(hs))
        for _ in range(reps):
            for h in hs:
                s, n = int(rng.integers(2**31)), sizes[int(rng.integers(len(sizes)))]
                if rng.random() < .04:
                    n = [33, 50, 64, 65, 90][int(rng.integers(5))]
                yield "%s %d n=%d seed=%d" % (key, k, n, s), lambda s=s, h=h, n=n: job_session(s, h, n)
                k += 1
    for _ in range(4 if quick else 40):
        for i, f in enumerate(FNS):
            s, n = int(rng.integers(2**31)), sizes[int(rng.integers(len(sizes)))]
            yield "interrupted %s n=%d seed=%d" % (f.__name__, n, s), lambda s=s, i=i, n=n: job_every(s, i, n)
    for n in [1, 1, 1, 2, 3, 5, 8, 33, 65, 100, 130, 200, 300, 520, 700, 1100] * (2 if quick else 20):
        s = int(rng.integers(2**31))
        yield "kept n=%d seed=%d" % (n, s), lambda s=s, n=n: job_keep(s, n)
    for _ in range(60 if quick else 600):
        s = int(rng.integers(2**31))
        yield "shapes seed=%d" % s, lambda s=s: job_shapes(s)
    for n in [150, 300, 520, 1025, 2050, 5000, 12000] * (2 if quick else 15):
        s, t = int(rng.integers(2**31)), int(rng.choice([1, 2, 4]))
        yield "long n=%d threads=%d seed=%d" % (n, t, s), lambda s=s, n=n, t=t: job_long(s, n, t)
    for _ in range(60 if quick else 900):
        s, n, t = int(rng.integers(2**31)), sizes[int(rng.integers(len(sizes)))], int(rng.choice([2, 4, 8]))
        yield "concurrent n=%d threads=%d seed=%d" % (n, t, s), lambda s=s, n=n, t=t: job_hammer(s, n, t, 6)
