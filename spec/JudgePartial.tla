---------------------------- MODULE JudgePartial ----------------------------
(***************************************************************************)
(* Partial distance covariance and correlation (C09)                       *)
(***************************************************************************)
EXTENDS Judge

PartialCtx(e) ==
    With([a |-> PDist(Sample(e.x), 1, 1), b |-> PDist(Sample(e.y), 1, 1), c |-> PDist(Sample(e.z), 1, 1)], LAMBDA m :
    With([a |-> UCentered(m.a), b |-> UCentered(m.b), c |-> UCentered(m.c)], LAMBDA u :
    With([aa |-> UProd(u.a, u.a), bb |-> UProd(u.b, u.b), cc |-> UProd(u.c, u.c),
          ab |-> UProd(u.a, u.b), ac |-> UProd(u.a, u.c), bc |-> UProd(u.b, u.c),
          ra |-> Radius(m.a), rb |-> Radius(m.b), rc |-> Radius(m.c)], LAMBDA g : g)))

(* v = <m, m> is negligible although the sample is not constant *)
Degenerate(e, v, r) == ~ QIsZero(r) /\ QLeq(v, QShl(Tol(e, r, r), 16))

PdcovIs(e, g, out, what) ==
    IF Degenerate(e, g.cc, g.rc) THEN Skip("degenerate z")
    ELSE IF QIsZero(g.rc) THEN NumIs(out, g.ab, Tol(e, g.ra, g.rb), what)
    ELSE LET v   == QSub(g.ab, QDiv(QMul(g.ac, g.bc), g.cc))
             ka  == QAbs(QDiv(g.ac, g.cc))
             kb  == QAbs(QDiv(g.bc, g.cc))
             t   == Tol(e, QAdd(g.ra, QMul(ka, g.rc)), QAdd(g.rb, QMul(kb, g.rc)))
             ta  == QDiv(Tol(e, g.ra, g.rc), g.cc)          \* errors of the coefficients
             tb  == QDiv(Tol(e, g.rb, g.rc), g.cc)
             tol == QAdd(t, QAdd(QMul(ta, QAbs(g.bc)), QMul(tb, QAbs(g.ac))))
         IN  NumIs(out, v, QShl(tol, 2), what)

(* unbiased squared correlation and a bound of its error *)
R(e, ij, ii, jj, ri, rj) ==
    IF QIsZero(ri) \/ QIsZero(rj) THEN [v |-> QZero, t |-> QZero]
    ELSE LET dd == QSqrt(QMul(ii, jj))
             v  == QDiv(ij, dd)
         IN  [v |-> v,
              t |-> QAdd(QDiv(Tol(e, ri, rj), dd),
                         QMul(QAbs(v), QAdd(QDiv(Tol(e, ri, ri), ii), QDiv(Tol(e, rj, rj), jj))))]

PdcorIs(e, g, out, what) ==
    IF Degenerate(e, g.aa, g.ra) \/ Degenerate(e, g.bb, g.rb) \/ Degenerate(e, g.cc, g.rc)
    THEN Skip("degenerate sample")
    ELSE
    With([xy |-> R(e, g.ab, g.aa, g.bb, g.ra, g.rb), xz |-> R(e, g.ac, g.aa, g.cc, g.ra, g.rc),
          yz |-> R(e, g.bc, g.bb, g.cc, g.rb, g.rc)], LAMBDA r :
      LET ox == QSub(QOne, QMul(r.xz.v, r.xz.v))
          oy == QSub(QOne, QMul(r.yz.v, r.yz.v))
      IN  IF Opt(e, "same", FALSE) THEN NumIs(out, QZero, QShl(QOne, -16), what \o " with z equal to x or y")
          ELSE IF QLeq(ox, QShl(r.xz.t, 12)) \/ QLeq(oy, QShl(r.yz.t, 12)) THEN Skip("ill-conditioned")
          ELSE LET den == QSqrt(QMul(ox, oy))
                   v   == QDiv(QSub(r.xy.v, QMul(r.xz.v, r.yz.v)), den)
                   tol == QAdd(QDiv(QAdd(r.xy.t, QAdd(r.xz.t, r.yz.t)), den),
                               QMul(QAbs(v), QAdd(QDiv(r.xz.t, ox), QDiv(r.yz.t, oy))))
               IN  NumIs(out, v, QShl(tol, 3), what))

PartialCall(e, g, c) ==
    LET what == c.op \o "(" \o Opt(c, "cfg", "") \o ")"
    IN  CASE c.op = "pdcov" -> PdcovIs(e, g, c.out, what)
          [] c.op = "pdcor" -> PdcorIs(e, g, c.out, what)
          [] c.op = "udcov_sqr" -> NumIs(c.out, g.ab, Tol(e, g.ra, g.rb), what)

JudgePartial(e) ==
    With(PartialCtx(e), LAMBDA g : TLCEval([i \in 1..Len(e.calls) |-> PartialCall(e, g, e.calls[i])]))
=============================================================================
