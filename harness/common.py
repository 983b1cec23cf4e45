"""Recording side of the conformance checks.

Nothing in here decides whether a result is right: inputs and outcomes are
written down exactly (integers times powers of two) and judged by TLC against
the TLA+ specification (spec/Conform.tla).
"""
from __future__ import annotations

import decimal
import fractions
import math
import warnings

import numpy as np

_INT_MAX = 2**31 - 1


def j_int(k):
    k = int(k)
    return k if -_INT_MAX <= k <= _INT_MAX else str(k)


def dyadic(v):
    """Exact (m, e) with v = m * 2**e, m odd or 0."""
    if isinstance(v, (fractions.Fraction, decimal.Decimal)):
        f = fractions.Fraction(v)
        if f.denominator & (f.denominator - 1):
            f = fractions.Fraction(float(v))
        m, d = f.numerator, f.denominator
    elif isinstance(v, (int, np.integer)):
        m, d = int(v), 1
    else:
        m, d = float(v).as_integer_ratio()
    if m == 0:
        return 0, 0
    e = -(d.bit_length() - 1)
    while m % 2 == 0:
        m //= 2
        e += 1
    return m, e


def j_num(v):
    m, e = dyadic(v)
    return [j_int(m), e]


def ints(values, q=1):
    """Common exponent and integers of a nested list of numbers (2-D)."""
    rows = [[dyadic(v) for v in row] for row in values]
    es = [e for row in rows for m, e in row if m]
    e = min(es) if es else 0
    e = -(-(-e) // q) * q if e >= 0 else -((-e + q - 1) // q) * q
    if e > 0:
        e = (e // q) * q
    out = []
    for row in rows:
        out.append([j_int(m << (k - e)) if m else 0 for m, k in row])
    return out, e


def sample(a, q=1):
    """JSON of a sample; a is anything np.asarray(dtype=object/float) takes."""
    a = np.asarray(a)
    if a.ndim == 1:
        a = a[:, None]
    v, e = ints(a.tolist(), q)
    return {"v": v, "e": e}


def matrix(a):
    a = np.asarray(a)
    v, e = ints(a.tolist())
    return {"v": v, "e": e}


def is_finite(v):
    try:
        return math.isfinite(v)
    except (TypeError, ValueError, OverflowError):
        try:
            return math.isfinite(float(v))
        except Exception:
            return False


def namespace_of(v):
    mod = type(v).__module__.split(".")[0]
    return {"numpy": "numpy", "array_api_strict": "strict",
            "builtins": "python"}.get(mod, mod)


def outcome_value(v):
    """Outcome record of a returned value."""
    import dcor
    if isinstance(v, dcor.Stats):
        vals = [v.covariance_xy, v.correlation_xy, v.variance_x, v.variance_y]
        if [id(a) for a in v] and not all(
            (a == b) or (a != a and b != b) for a, b in zip(v, vals)
        ):
            return {"k": "badstats"}
        if not all(is_finite(a) for a in vals):
            return {"k": "nan", "ns": namespace_of(vals[0])}
        return {"k": "stats", "v": [j_num(a) for a in vals],
                "ns": namespace_of(vals[0])}
    shape = getattr(v, "shape", ())
    if shape is None or v is None:
        return {"k": "none"}
    if len(shape) == 0:
        try:
            f = v if isinstance(v, (fractions.Fraction, decimal.Decimal)) else (
                v.item() if hasattr(v, "item") else v)
            if not is_finite(f):
                return {"k": "nan", "ns": namespace_of(v),
                        "s": "nan" if f != f else ("inf" if f > 0 else "-inf")}
            return {"k": "val", "v": j_num(f), "ns": namespace_of(v)}
        except (TypeError, ValueError, AttributeError):
            return {"k": "other", "t": type(v).__name__}
    a = np.asarray(v)
    if a.dtype == object:
        flat = [float(t) for t in a.ravel()]
        fin = all(is_finite(t) for t in flat)
    else:
        fin = bool(np.all(np.isfinite(a)))
    if not fin:
        return {"k": "nan", "ns": namespace_of(v), "shape": list(a.shape)}
    if a.ndim == 1:
        return {"k": "vec", "v": [j_num(t) for t in a.tolist()],
                "shape": list(a.shape), "ns": namespace_of(v)}
    if a.ndim == 2:
        m = matrix(a)
        return {"k": "mat", "v": m["v"], "e": m["e"],
                "shape": list(a.shape), "ns": namespace_of(v)}
    return {"k": "other", "t": "ndim%d" % a.ndim}


def call(f, *args, **kwargs):
    """Outcome record of f(*args, **kwargs), exceptions included."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v = f(*args, **kwargs)
            out = outcome_value(v)
        except Exception as exc:  # noqa: BLE001
            out = {"k": "err", "t": type(exc).__name__, "m": str(exc)[:160]}
    out["w"] = sorted({("exponent" if "exponent" in str(i.message).lower()
                        else i.category.__name__) for i in w})
    return out


# --------------------------------------------------------------------- data
def gen_column(rng, n, fam):
    """One column of n numbers of the given family (float64)."""
    if fam == "ints":
        return rng.integers(-9, 10, n).astype(float)
    if fam == "ties":
        return rng.integers(0, 3, n).astype(float)
    if fam == "binary":
        a = rng.integers(0, 2, n).astype(float)
        return a
    if fam == "perm":
        return rng.permutation(n).astype(float)
    if fam == "sorted":
        return np.sort(rng.integers(-50, 50, n).astype(float))
    if fam == "reversed":
        return np.sort(rng.integers(-50, 50, n).astype(float))[::-1].copy()
    if fam == "normal":
        return np.round(rng.normal(size=n) * 2**16) / 2**16
    if fam == "double":
        return rng.normal(size=n)
    if fam == "cauchy":
        return np.round(np.clip(rng.standard_cauchy(n), -1e4, 1e4) * 2**10) / 2**10
    if fam == "offset":
        return 1e6 + np.round(rng.normal(size=n) * 2**10) / 2**10
    if fam == "small":
        return np.round(rng.normal(size=n) * 2**10) * 2.0**-30
    if fam == "large":
        return np.round(rng.normal(size=n) * 2**10) * 2.0**20
    if fam == "negative":
        return -np.abs(np.round(rng.normal(size=n) * 2**10) / 2**10) - 1
    if fam == "runs":
        return np.repeat(rng.integers(-5, 6, n // 3 + 1), 3)[:n].astype(float)
    if fam == "constant":
        return np.full(n, 0.1)
    if fam == "outlier":
        a = np.round(rng.normal(size=n) * 2**8) / 2**8
        a[int(rng.integers(n))] = 1000.0
        return a
    if fam == "clusters":      # two groups, far from each other
        return rng.integers(0, 2, n) * 2.0**26 + np.round(rng.normal(size=n) * 2**8) / 2**8
    raise ValueError(fam)


FAMS = ["ints", "ties", "binary", "perm", "sorted", "reversed", "normal",
        "double", "cauchy", "offset", "small", "large", "negative", "runs",
        "outlier", "clusters"]
SHAPES = FAMS + ["mixed", "dup", "shifted", "collinear"]


def dim(rng, top=33):
    """A number of columns: mostly few, sometimes many."""
    return min(top, int(rng.choice([1] * 9 + [2] * 4 + [3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33])))


def gen_sample(rng, n, d, fam):
    if fam == "mixed":          # columns of different kinds
        return np.concatenate([gen_sample(rng, n, 1, FAMS[int(rng.integers(len(FAMS)))]) for _ in range(d)], axis=1)
    if fam == "dup":            # repeated observations
        return gen_sample(rng, n, d, "normal")[rng.integers(0, max(1, n // 2), n)]
    if fam == "shifted":        # far from the origin
        return gen_sample(rng, n, d, "normal") + 2.0 ** int(rng.integers(10, 24)) * rng.choice([-1, 1], (1, d))
    if fam == "collinear":
        c = gen_sample(rng, n, 1, FAMS[int(rng.integers(len(FAMS)))])
        return c * rng.integers(-3, 4, (1, d))
    cols = [gen_column(rng, n, fam) for _ in range(d)]
    return np.stack(cols, axis=1)


NEAR = [(2**20 + 1, 2**20), (2**20 - 1, 2**20), (2**16 + 1, 2**16), (2**12 - 1, 2**12), (2**21 - 1, 2**20), (2**17 + 1, 2**16),
        (2**23 + 1, 2**23)]


def whole(rng, s):
    """A sample of integers, like s as far as possible."""
    if np.all(s == np.round(s)) and np.max(np.abs(s), initial=0) < 2**40:
        return s
    t = np.round(s)
    return t if np.max(np.abs(t), initial=0) < 2**40 and np.any(t != t[:1]) else rng.integers(-30, 31, s.shape).astype(float)


def near(rng, p, q, *samples, prob=.06):
    """Sometimes an exponent which is almost 1 or 2 (the data are then integers)."""
    if rng.random() >= prob:
        return (p, q) + samples
    return NEAR[int(rng.integers(len(NEAR)))] + tuple(whole(rng, s) for s in samples)


def distant(rng, *samples, prob=.05):
    """Sometimes the samples far from the origin in some of the variables (whole numbers: the differences are exact)."""
    if rng.random() >= prob:
        return samples
    samples = [np.clip(whole(rng, s), -2.0**40, 2.0**40) for s in samples]
    d = samples[0].shape[1]
    shift = np.where(rng.random(d) < .5, 2.0 ** rng.integers(36, 49, d), 0) * rng.choice([-1, 1], d)
    return tuple(s + (shift if s.shape[1] == d else 2.0 ** int(rng.integers(30, 49))) for s in samples)


def together(rng, *samples):
    """The same samples, perhaps as views of one array (the columns of a table)."""
    k = rng.random()
    if k < .75 or len({len(s) for s in samples}) > 1 or len({s.dtype for s in samples}) > 1:
        return samples
    if k < .87:
        t = np.concatenate(samples, axis=1)
    elif k < .94:
        t = np.asfortranarray(np.concatenate(samples, axis=1))
    else:       # alternate rows of a longer table
        t = np.repeat(np.concatenate(samples, axis=1), 2, axis=0)[::2]
    ends = np.cumsum([s.shape[1] for s in samples])
    return tuple(t[:, e - s.shape[1]:e] for s, e in zip(samples, ends))


def dependent(rng, x, kind):
    """A sample (n, 1) that depends on the first column of x."""
    c = x[:, 0]
    if kind == "copy":
        return c[:, None].copy()
    if kind == "neg":
        return -c[:, None]
    if kind == "square":
        s = float(np.max(np.abs(c))) or 1.0
        k = np.round(c / s * 2**12) / 2**12
        return (k * k)[:, None]
    if kind == "step":
        return (c > np.median(c)).astype(float)[:, None]
    raise ValueError(kind)
