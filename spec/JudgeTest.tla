----------------------------- MODULE JudgeTest -----------------------------
(***************************************************************************)
(* Permutation tests (C05, C06, C08, C18).  The observation has the        *)
(* permutations e.perms that the random state yields (1-based, in order);  *)
(* the statistic of every resample is computed here.                       *)
(***************************************************************************)
EXTENDS Judge

(* projection of A on the complement of C (U-centred matrices) *)
Projected(A, C) ==
    LET cc == MDot(C.m, C.m)
    IN  IF NSign(cc) = 0 THEN A
        ELSE [m |-> MSub(MScale(A.m, cc), MScale(C.m, MDot(A.m, C.m))), u |-> A.u, d |-> NMul(A.d, cc)]

PermM(A, f) == [m |-> MTake(A.m, f, f), u |-> A.u, d |-> A.d]

Pow2(k) == NEq(NShl(1, NBits(k) - 1), k)
Small(s) == s.e = 0 /\ NLt(MMaxAbs(s.v), 4096) /\ D(s) = 1

(* what the test permutes, and the statistic of a permutation *)
TestCtx(e) ==
    IF e.test = "dcov" THEN
      With([x |-> Sample(e.x), y |-> Sample(e.y)], LAMBDA s :
      With([a |-> PDist(s.x, e.p, e.q), b |-> PDist(s.y, e.p, e.q)], LAMBDA m :
      With([a |-> DCentered(m.a), b |-> DCentered(m.b)], LAMBDA cm :
        [n |-> N(s.x), a |-> cm.a, b |-> cm.b, skip |-> FALSE,
         \* every operation is exact in floating point
         exact |-> Opt(e, "exact", FALSE) /\ Pow2(N(s.x)) /\ Small(s.x) /\ Small(s.y) /\ e.p = e.q,
         tol |-> QMul(QInt(N(s.x)), Tol(e, Radius(m.a), Radius(m.b)))])))
    ELSE IF e.test = "pdcov" THEN
      With([x |-> Sample(e.x), y |-> Sample(e.y), z |-> Sample(e.z)], LAMBDA s :
      With([a |-> PDist(s.x, e.p, e.q), b |-> PDist(s.y, e.p, e.q), c |-> PDist(s.z, e.p, e.q)], LAMBDA m :
      With([a |-> UCentered(m.a), b |-> UCentered(m.b), c |-> UCentered(m.c)], LAMBDA u :
      With([cc |-> UProd(u.c, u.c), ac |-> UProd(u.a, u.c), bc |-> UProd(u.b, u.c)], LAMBDA w :
        LET zero == QIsZero(Radius(m.c))
            \* the projections are within these radii
            pa == IF zero THEN Radius(m.a) ELSE QAdd(Radius(m.a), QDiv(QMul(QAbs(w.ac), Radius(m.c)), w.cc))
            pb == IF zero THEN Radius(m.b) ELSE QAdd(Radius(m.b), QDiv(QMul(QAbs(w.bc), Radius(m.c)), w.cc))
            ill == ~ zero /\ QLeq(w.cc, QShl(Tol(e, Radius(m.c), Radius(m.c)), 16))
        IN  [n |-> N(s.x), a |-> Projected(u.a, u.c), b |-> Projected(u.b, u.c), skip |-> ill,
             exact |-> /\ Opt(e, "exact", FALSE) /\ zero /\ N(s.x) = 4 /\ e.p = e.q /\ Small(s.x) /\ Small(s.y)
                       /\ NEq(NMul(3, NDiv(MTotal(m.a.m), 3)), MTotal(m.a.m))
                       /\ NEq(NMul(3, NDiv(MTotal(m.b.m), 3)), MTotal(m.b.m)),
             tol |-> IF ill THEN QOne ELSE QMul(QInt(N(s.x)), Tol(e, pa, pb))]))))
    ELSE
      With(Sample(e.pool), LAMBDA s :
      With(PDist(s, e.p, e.q), LAMBDA a :
        [n |-> N(s), a |-> a, b |-> a, skip |-> e.est = "U" /\ \E k \in 1..Len(e.sizes) : e.sizes[k] < 2,
         exact |-> /\ Opt(e, "exact", FALSE) /\ Small(s) /\ e.p = e.q
                   /\ \A i \in 1..Len(e.sizes) : Pow2(e.sizes[i])
                   /\ \A i, j \in 1..Len(e.sizes) : i # j => Pow2(e.sizes[i] + e.sizes[j])
                   /\ e.est = "U" => \A i \in 1..Len(e.sizes) : e.sizes[i] = 2,
         tol |-> QMul(QInt(N(s) * Len(e.sizes)), QShl(Radius(a), 0 - e.tb))]))

Stat(e, g, f) ==
    CASE e.test = "dcov"   -> QMul(QInt(g.n), MeanProd(PermM(g.a, f), g.b))
      [] e.test = "pdcov"  -> QMul(QInt(g.n), UProd(PermM(g.a, f), g.b))
      [] e.test = "energy" -> KSampleEnergy(e.avg, e.est, g.a, e.sizes, f)

(* number of the resamples that are certainly / possibly above the observed *)
Counts(e, g) ==
    With(Stat(e, g, Range(1, g.n)), LAMBDA s0 :
    With([i \in 1..Len(e.perms) |-> QSub(Stat(e, g, e.perms[i]), s0)], LAMBDA d :
      IF g.exact
      THEN With(Len(SelectSeq(d, LAMBDA v : QSign(v) > 0)), LAMBDA k : [s0 |-> s0, lo |-> k, hi |-> k])
      ELSE [s0 |-> s0,
            lo |-> Len(SelectSeq(d, LAMBDA v : QLt(QShl(g.tol, 1), v))),
            \* (the identity gives the statistic itself)
            hi |-> Len(SelectSeq(Range(1, Len(d)), LAMBDA i : QLt(QNeg(QShl(g.tol, 1)), d[i]) /\ e.perms[i] # Range(1, g.n)))]))

PIs(p, nr, lo, hi) ==      \* p = (1 + K) / (nr + 1) for a K in lo..hi
    \E k \in lo..hi : QNear(QMul(p, QInt(nr + 1)), QInt(k + 1), QShl(QOne, -20))

TestCall(e, g, w, c) ==
    LET what == e.test \o " test(" \o Opt(c, "cfg", "") \o ")"
        nr == Len(e.perms)
    IN  IF c.out.k = "err" THEN Bad(what \o " raised " \o c.out.t)
        ELSE IF c.out.k # "test" THEN Bad(what \o " is " \o c.out.k)
        ELSE First(<<IF e.judge = "s" THEN "ok"
                     ELSE IF c.out.p.k # "val" THEN Bad(what \o ": the p-value is not a number")
                     ELSE Verdict(PIs(QFloat(c.out.p.v), nr, w.lo, w.hi),
                                  what \o ": the p-value does not count the resamples above the statistic"),
                     IF e.judge = "p" THEN "ok"
                     ELSE IF c.out.s.k # "val" THEN Bad(what \o ": the statistic is not a number")
                     ELSE Verdict(QNear(QFloat(c.out.s.v), w.s0, g.tol), what \o ": the statistic is wrong")>>)

JudgeTest(e) ==
    IF ~ (\A i \in 1..Len(e.perms) : VSort(e.perms[i]) = Range(1, Len(e.perms[i])))
    THEN <<Skip("not permutations")>>
    ELSE With(TestCtx(e), LAMBDA g :
           IF g.skip THEN [i \in 1..Len(e.calls) |-> Skip("ill-conditioned")]
           ELSE With(Counts(e, g), LAMBDA w :
                  TLCEval([i \in 1..Len(e.calls) |-> TestCall(e, g, w, e.calls[i])])))

(***************************************************************************)
(* Things that must be the same (C06, C12): the recorded values (strings)  *)
(***************************************************************************)
JudgeEqual(e) == [i \in 1..Len(e.calls) |-> Verdict(e.calls[i].a = e.calls[i].b, e.calls[i].what)]

(* numbers that must agree up to rounding in the order of the operations:
   2^-tb relative to the larger, or to c.scale *)
NearNum(r, s, tb) == QNear(r, s, QShl(QMax(QAbs(r), QAbs(s)), 0 - tb))
NearOut(a, b, tb, scale) ==
    IF a.k # b.k THEN FALSE
    ELSE CASE a.k = "val" -> QNear(QFloat(a.v), QFloat(b.v), QShl(scale, 0 - tb))
           [] a.k \in {"stats", "vec"} ->
                /\ Len(a.v) = Len(b.v)
                /\ \A i \in 1..Len(a.v) : QNear(QFloat(a.v[i]), QFloat(b.v[i]), QShl(scale, 0 - tb))
           [] a.k = "mat" ->
                LET e0 == IF a.e < b.e THEN a.e ELSE b.e
                IN  /\ a.shape = b.shape
                    /\ QLeq(<<MMaxAbs(MSub(MScale(MParse(a.v), NShl(1, a.e - e0)),
                                           MScale(MParse(b.v), NShl(1, b.e - e0)))), 1, e0>>,
                            QShl(scale, 0 - tb))
           [] a.k = "err" -> a.t = b.t
           [] OTHER -> TRUE
JudgeNear(e) ==
    [i \in 1..Len(e.calls) |->
       LET c == e.calls[i]
       IN  Verdict(NearOut(c.a, c.b, e.tb, QFloat(c.scale)), c.what)]
=============================================================================
