---------------------------- MODULE JudgeEnergy ----------------------------
(***************************************************************************)
(* Energy distance and the k-sample energy statistic (C07, C08)            *)
(***************************************************************************)
EXTENDS Judge

EnergyCall(e, g, c) ==
    LET what == c.op \o "(" \o Opt(c, "cfg", "") \o ")"
        k    == IF c.op = "energy" THEN QOne ELSE <<g.n * g.m, g.n + g.m, 0>>
    IN  IF c.est = "U" /\ (g.n < 2 \/ g.m < 2) THEN Skip("U-statistic of one observation")
        ELSE WithNs(c, NumIs(c.out, QMul(k, EnergyD(c.avg, c.est, g.xx, g.yy, g.xy)), QMul(k, g.tol), what))

JudgeEnergy(e) ==
    With([x |-> Sample(e.x), y |-> Sample(e.y)], LAMBDA s :
    With([xx |-> PDist(s.x, e.p, e.q), yy |-> PDist(s.y, e.p, e.q), xy |-> CDist(s.x, s.y, e.p, e.q)], LAMBDA d :
    With([xx |-> d.xx, yy |-> d.yy, xy |-> d.xy, n |-> N(s.x), m |-> N(s.y),
          tol |-> QShl(QMax(Radius(d.xx), QMax(Radius(d.yy), Radius(d.xy))), 0 - e.tb)], LAMBDA g :
      TLCEval([i \in 1..Len(e.calls) |-> EnergyCall(e, g, e.calls[i])]))))

(* the energy test statistic of any number of samples (e.pool, e.sizes) *)
JudgeKSample(e) ==
    With(PDist(Sample(e.pool), e.p, e.q), LAMBDA a :
      LET n   == VSum(e.sizes)
          tol == QMul(QInt(n * Len(e.sizes)), QShl(Radius(a), 0 - e.tb))
      IN  TLCEval([i \in 1..Len(e.calls) |->
            LET c == e.calls[i]
                what == c.op \o "(" \o Opt(c, "cfg", "") \o ")"
            IN  IF c.est = "U" /\ \E k \in 1..Len(e.sizes) : e.sizes[k] < 2
                THEN Skip("U-statistic of one observation")
                ELSE WithNs(c, NumIs(c.out, KSampleEnergy(c.avg, c.est, a, e.sizes, Range(1, n)), tol, what))]))
=============================================================================
