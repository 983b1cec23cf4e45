------------------------------ MODULE JudgeInv ------------------------------
(***************************************************************************)
(* Invariances (C04).  The observation has the samples x, y, transformed   *)
(* samples x2, y2 and the results for both pairs.  That the second pair is *)
(* a transformation of the first one is checked here: the rows are         *)
(* permuted, then multiplied by a matrix M with M M' = s^2 I (a rotation,  *)
(* reflection or permutation of the axes, times s), then translated.       *)
(***************************************************************************)
EXTENDS Judge

IsPerm(f) == VSort(f) = Range(1, Len(f))

Similar(M, s) ==
    /\ NLt(0, s)
    /\ MEq(MMul(M, MTrans(M)),
           MParse([i \in 1..MRows(M) |-> [j \in 1..MRows(M) |-> IF i = j THEN NMul(s, s) ELSE 0]]))

Min3(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c

(* z is the image of x by t *)
Image(x, z, t) ==
    LET M  == MParse(t.m)
        o  == Sample(t.off)
        e0 == Min3(x.e, z.e, o.e)
        d  == Range(1, D(x))
        xp == MTake(x.v, t.perm, d)
        A  == MScale(MMul(xp, M), NShl(1, x.e - e0))
        B  == MScale(MTake(o.v, [i \in 1..N(x) |-> 1], d), NShl(1, o.e - e0))
    IN  /\ IsPerm(t.perm) /\ Len(t.perm) = N(x) /\ N(z) = N(x) /\ D(z) = D(x)
        /\ Similar(M, NParse(t.s))
        /\ MEq(MAdd(A, B), MScale(z.v, NShl(1, z.e - e0)))

(* s^(p/q) for an integer s > 0 *)
PowQ(s, p, q) == IF q = 1 THEN <<NPow(s, p), 1, 0>>
                 ELSE <<NRoot(NShl(NPow(s, p), q * FRAC), q), 1, 0 - FRAC>>

(* a bound of the largest distance, to the power p/q: the sum of the ranges *)
RECURSIVE RangeSum(_, _)
RangeSum(v, j) == IF j = 0 THEN 0
                  ELSE With(VSort(MCol(v, j)), LAMBDA c :
                            NAdd(NSub(c[Len(c)], c[1]), RangeSum(v, j - 1)))
Spread(x, p, q) == QShl(PowQ(NMax(1, RangeSum(x.v, D(x))), p, q), (x.e * p) \div q)

InvCtx(e) ==
    LET x  == Sample(e.x)   y  == Sample(e.y)
        x2 == Sample(e.x2)  y2 == Sample(e.y2)
        sw == Opt(e, "swap", FALSE)
        fx == PowQ(NParse(e.tx.s), e.p, e.q)
        fy == PowQ(NParse(e.ty.s), e.p, e.q)
        ra == Spread(x, e.p, e.q)
        rb == Spread(y, e.p, e.q)
    IN  [ok |-> (IF sw THEN Image(x, y2, e.tx) /\ Image(y, x2, e.ty)
                 ELSE Image(x, x2, e.tx) /\ Image(y, y2, e.ty)),
         joint |-> e.tx.perm = e.ty.perm,
         f |-> QMul(fx, fy), fx |-> fx, ra |-> ra, rb |-> rb,
         tol |-> Tol(e, ra, rb), tx |-> Tol(e, ra, ra), ty |-> Tol(e, rb, rb)]

Scaled(a, b, f, tol, what) == Verdict(QNear(b, QMul(f, a), QShl(QMul(f, tol), 1)), what)

(* correlations: the tolerance depends on the variances (e.ref, e.uref: statistics of x, y) *)
SameCorr(r1, r2, ref, g, what) ==
    IF ref.k # "stats" THEN Skip("no reference")
    ELSE LET cov == QFloat(ref.v[1])  vx == QFloat(ref.v[3])  vy == QFloat(ref.v[4])
         IN  IF QLeq(vx, QShl(g.tx, 12)) \/ QLeq(vy, QShl(g.ty, 12)) THEN Skip("ill-conditioned")
             ELSE LET dd  == QSqrt(QMul(vx, vy))
                      rel == QAdd(QDiv(g.tx, vx), QDiv(g.ty, vy))
                  IN  Verdict(QLeq(QMul(QAbs(QSub(r1, r2)), dd),
                                   QShl(QAdd(g.tol, QMul(QAbs(cov), rel)), 2)), what)

InvCall(e, g, c) ==
    LET what == c.op \o "(" \o Opt(c, "cfg", "") \o ") " \o e.what
    IN  IF c.a.k = "err" \/ c.b.k = "err"
        THEN Verdict(c.a.k = "err" /\ c.b.k = "err", what \o " raised")
        ELSE IF c.a.k # "val" \/ c.b.k # "val" THEN Verdict(c.a.k = c.b.k, what)
        ELSE LET a == QFloat(c.a.v)  b == QFloat(c.b.v)
             IN  CASE c.op \in {"dcov_sqr", "udcov_sqr"} -> Scaled(a, b, g.f, g.tol, what)
                   [] c.op = "dcov" -> Scaled(QMul(a, a), QMul(b, b), g.f, g.tol, what)
                   [] c.op = "dcor_sqr" -> SameCorr(a, b, e.ref, g, what)
                   [] c.op = "udcor_sqr" -> SameCorr(a, b, e.uref, g, what)
                   [] c.op = "dcor" -> SameCorr(QMul(a, a), QMul(b, b), e.ref, g, what)

JudgeInv(e) ==
    With(InvCtx(e), LAMBDA g :
      IF ~ (g.ok /\ g.joint) THEN <<Skip("not an exact transformation")>>
      ELSE TLCEval([i \in 1..Len(e.calls) |-> InvCall(e, g, e.calls[i])]))

(* energy distance: the same M and translation for both samples *)
JudgeEInv(e) ==
    With(InvCtx(e), LAMBDA g :
      IF ~ (g.ok /\ e.tx.m = e.ty.m /\ e.tx.off = e.ty.off)
      THEN <<Skip("not an exact transformation")>>
      ELSE LET x == Sample(e.x)  y == Sample(e.y)
               e0 == IF x.e < y.e THEN x.e ELSE y.e
               pool == [v |-> MParse([i \in 1..(N(x) + N(y)) |->
                            IF i <= N(x) THEN MRow(MScale(x.v, NShl(1, x.e - e0)), i)
                            ELSE MRow(MScale(y.v, NShl(1, y.e - e0)), i - N(x))]), e |-> e0]
           IN  With(QShl(Spread(pool, e.p, e.q), 0 - e.tb), LAMBDA tol :
                 TLCEval([i \in 1..Len(e.calls) |->
                   LET c == e.calls[i]
                       what == c.op \o "(" \o Opt(c, "cfg", "") \o ") " \o e.what
                   IN  IF c.a.k # "val" \/ c.b.k # "val" THEN Verdict(c.a.k = c.b.k, what)
                       ELSE Scaled(QFloat(c.a.v), QFloat(c.b.v), g.fx, tol, what)])))
=============================================================================
