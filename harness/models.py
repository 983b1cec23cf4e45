"""Which TLC runs belong to each property."""

ASSUMPTIONS = [
    "java/Num.java implements the definitions of spec/Num.tla (compared by spec/NumSelf.tla)",
    "floating point inputs and outputs are recorded exactly by harness/common.py",
    "the models (FastAvl, FastMerge, ...) are of the design; the conformance of the code is decided on "
    "the recorded executions",
]


def cfg(spec="Spec", init=None, inv=(), props=(), **const):
    lines = ["CONSTANT %s = %s" % kv for kv in sorted(const.items())]
    lines += ["INIT Init", "NEXT Next"] if init else ["SPECIFICATION " + spec]
    lines += ["INVARIANT " + i for i in inv] + ["PROPERTY " + p for p in props]
    return "\n".join(lines + ["CHECK_DEADLOCK FALSE", ""])


def model(name, module, min_states, note="", workers=2, heap="3g", **kw):
    return {"name": name, "module": module, "cfg": cfg(**kw), "workers": workers,
            "heap": heap, "min_states": min_states, "note": note}


def gen(key, module, extra=(), **kw):
    return {"key": key, "module": module, "cfg": cfg(**kw), "extra": list(extra)}


LAW_CORE = ["LawHalf", "LawOne", "LawThreeHalves", "LawLine", "LawTally"]


def laws(name, inv, t, n=4, maxv=2, dim=1, min_states=1000):
    return model(name, "Laws", min_states, "laws %s, every sample of %d points" % (", ".join(inv), n),
                 init=True, inv=inv, NN=n, MaxV=maxv, Dim=dim, workers=3)


def alg(n, maxv, min_states):
    return model("FastAlg-%d" % n, "FastAlg", min_states,
                 "algebra of the fast algorithms, every data set with ties and every sorting order", init=True,
                 inv=["AvlCorrect", "MergeCorrect", "RowsCorrect", "VarCorrect", "SumsCorrect"],
                 NN=n, MaxV=maxv, workers=3)


NUM = model("NumSelf", "NumSelf", 10000, "overrides of the arithmetic = its definitions", init=True,
            inv=["Matrices", "Numbers", "Huge"], MaxV=1, workers=3)


def c01(t):
    q = t == "quick"
    ms = [NUM, laws("Laws-1d", LAW_CORE, t), laws("Laws-2d", ["LawOne"], t, n=3 if q else 4, maxv=1, dim=2, min_states=100)]
    if not q:
        ms.append(laws("Laws-5", ["LawOne"], t, n=5, maxv=2))
    return {"models": ms}


def fast(q):
    return [model("FastAvl", "FastAvl", 30000, "every permutation of the ranks", MinN=4, MaxN=6 if q else 8, workers=3,
                  inv=["InBounds", "Once", "Correct", "Covers", "Few"], props=["Advances"]),
            model("FastMerge", "FastMerge", 20000, "every y with ties", MinN=1, MaxN=5 if q else 7, MaxY=3, workers=2,
                  inv=["Correct", "Full", "Few"], props=["Ends", "Advances"])]


def c02(t):
    q = t == "quick"
    return {
        "gen": [gen("order_types", "OrderTypes", init=True, inv=["Emit"], MinN=2, MaxN=5 if q else 6)],
        "models": fast(q) + [
            alg(4, 2, 40000) if q else alg(5, 2, 100000),
        ],
    }


def c03(t):
    return {"models": [laws("Laws-1d", LAW_CORE, t)]}


def perm_test(n, tests, window, values, min_states):
    return model("PermTest-%dx%d" % (tests, n), "PermTest", min_states,
                 "%d tests of %d resamples sharing a random state, every schedule and outcome" % (tests, n),
                 N=n, Tests=tests, Window=window, Values=values, Cores=9, Lazy="FALSE",
                 inv=["TypeOK", "OwnDraw", "Advance", "Reproducible"], props=["Ends"], workers=3)


def schedules(key, n, window, cores=9):
    g = gen(key, "PermTest", inv=["Emit"], N=n, Tests=1, Window=window, Values="{0}", Cores=cores, Lazy="FALSE")
    g["cfg"] += "CONSTRAINT EmitStop\n"
    return g


def c05(t):
    return {"models": [perm_test(3, 2, 3, "{0,1,2}", 30000)]}


def c06(t):
    q = t == "quick"
    bad = model("PermTest-workers-draw", "PermTest", 1, "negative control: workers draw when they run",
                N=3, Tests=1, Window=3, Values="{0,1,2}", Cores=9, Lazy="TRUE", inv=["OwnDraw"])
    bad["expect"] = "OwnDraw"
    return {"gen": [schedules("w4", 5, 4), schedules("w6", 7, 6, 2)] if q else
                   [schedules("w4", 6, 4), schedules("w6", 7, 6, 3), schedules("w8", 8, 8, 2)],
            "models": [perm_test(3, 2, 3, "{0,1,2}", 30000) if q else perm_test(3, 3, 3, "{0,2}", 30000),
                       perm_test(5, 1, 4, "{0,2}", 1000), bad]}


SEED = 1


def simulate(key, module, num, depth, **kw):
    """Random behaviours of a specification."""
    return gen(key, module, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED)], **kw)


def c10(t):
    q = t == "quick"
    b = dict(inv=["Bound", "Writes", "Emit"], Bufs='{"a","b","c"}', **{"None": "None"})
    return {"gen": [gen("pairs", "Buffers", Length=2, **b),
                    simulate("long", "Buffers", 400 if q else 6000, 7, Length=6, **b),
                    simulate("longer", "Buffers", 60 if q else 1000, 16, Length=15, **b)],
            "models": [model("Buffers-3", "Buffers", 10000, "every history of 3 operations over 2 buffers",
                             inv=["Bound", "Writes"], Bufs='{"a","b"}', Length=3 if q else 4, **{"None": "None"})]}


def c11(t):
    return {"gen": [gen("rows", "DispatchGen", init=True, inv=["Emit", "Consistent"], Rows="TRUE")]}


def session(length, flaw="none", fns='{"f"}', args='{"a","b"}', threads="{1,2}"):
    return dict(Fns=fns, Args=args, Threads=threads, Length=length, Flaw='"%s"' % flaw)


def c12(t):
    q = t == "quick"
    ms = [model("Session", "Session", 10000, "every session of 2 threads over 2 arguments", inv=["Pure"], workers=3,
                **session(6 if q else 8))]
    for flaw in ("shared", "clobber", "memo", "handout", "inplace"):
        m = model("Session-" + flaw, "Session", 1, "negative control: " + flaw, inv=["Pure"], workers=1, heap="1g",
                  **session(6, flaw))
        m["expect"] = "Pure"
        ms.append(m)
    three = dict(fns='{"f","g"}', args='{"a","b","c"}', threads="{1,2,3}")
    return {"models": ms,
            "gen": [gen("short", "Session", inv=["Pure", "Emit"], **session(5)),
                    simulate("long", "Session", 150 if q else 3000, 17, inv=["Emit"], **session(16, **three)),
                    simulate("threads", "Session", 120 if q else 2000, 11, inv=["Emit"], **session(
                        10, fns='{"f","g"}', args='{"a","b"}', threads="{1,2,3}"))]}


def c14(t):
    return {"gen": [gen("requests", "DispatchGen", init=True, inv=["Emit", "Consistent"], Rows="FALSE")]}


def c19(t):
    return {"models": fast(t == "quick")}


def plan(prop, tier):
    return PLANS.get(prop, lambda t: {})(tier)


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C05": c05, "C06": c06, "C10": c10, "C11": c11, "C12": c12, "C14": c14, "C19": c19}
