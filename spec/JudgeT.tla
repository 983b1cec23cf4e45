------------------------------- MODULE JudgeT -------------------------------
(***************************************************************************)
(* The t-test of distance correlation (C17)                                *)
(***************************************************************************)
EXTENDS Judge, Student

(* t sqrt(1 - R^2) = sqrt(v - 1) R *)
TStatIs(e, g, o, what) ==
    LET v == (g.n * (g.n - 3)) \div 2
    IN  IF QIsZero(g.ra) \/ QIsZero(g.rb)
        THEN IF o.k # "val" THEN Bad(what \o " of a constant sample is " \o o.k)
             ELSE Verdict(QIsZero(QFloat(o.v)), what \o " of a constant sample is not 0")
        ELSE IF QLeq(g.uvx, QShl(g.tx, 12)) \/ QLeq(g.uvy, QShl(g.ty, 12)) THEN Skip("ill-conditioned")
        ELSE With(QSqrt(QMul(g.uvx, g.uvy)), LAMBDA dd :
             With([r |-> QDiv(g.ucov, dd),
                   t |-> QAdd(QDiv(g.tol, dd), QAdd(QDiv(g.tx, g.uvx), QDiv(g.ty, g.uvy)))], LAMBDA w :
               LET one == QSub(QOne, QMul(w.r, w.r))
               IN  IF QLt(QShl(QOne, -20), w.t) THEN Skip("ill-conditioned")
                   ELSE IF QLeq(one, QShl(w.t, 12))
                   THEN \* R is 1 or -1 up to rounding: the statistic is unbounded
                        IF o.k = "nan" THEN Verdict(o.s = (IF QSign(w.r) > 0 THEN "inf" ELSE "-inf"), what)
                        ELSE IF o.k # "val" THEN Bad(what \o " is " \o o.k)
                        ELSE Verdict(QSign(QFloat(o.v)) = QSign(w.r)
                                     /\ QLeq(QMul(QInt(64), QInt(v - 1)), QMul(QFloat(o.v), QFloat(o.v))), what)
                   ELSE IF o.k # "val" THEN Bad(what \o " is " \o o.k)
                   ELSE LET t == QMul(QSqrt(QDiv(QInt(v - 1), one)), w.r)
                            \* dt/dR = sqrt(v - 1) (1 - R^2)^(-3/2)
                            tol == QMul(QSqrt(QInt(v)), QDiv(w.t, QMul(one, QSqrt(one))))
                        IN  Verdict(QNear(QFloat(o.v), t, QShl(tol, 3)), what)))

PvalueIs(g, t, p, what) ==
    LET nu == (g.n * (g.n - 3)) \div 2 - 1
    IN  IF p.k # "val" THEN Bad(what \o " is " \o p.k)
        ELSE LET pv == QFloat(p.v)
             IN  IF QSign(pv) < 0 \/ QLt(QOne, pv) THEN Bad(what \o " is not in [0, 1]")
                 ELSE IF t.k = "nan"
                 THEN CASE t.s = "inf"  -> Verdict(QIsZero(pv), what \o " of an infinite statistic is not 0")
                        [] t.s = "-inf" -> Verdict(QEq(pv, QOne), what \o " of an infinite statistic is not 1")
                        [] OTHER        -> Skip("statistic is not a number")
                 \* the library's distribution function works with 1 + t^2 / nu: near 0
                 \* it is only good to 2^-53 / |t|, that is, to 2^-26 at worst
                 ELSE LET tol == IF QLt(QAbs(QFloat(t.v)), QShl(QOne, -10)) THEN -25 ELSE -36
                      IN  Verdict(QNear(pv, UpperTail(QFloat(t.v), nu), QShl(QOne, tol)), what)

JudgeT(e) ==
    With(Ctx(e), LAMBDA g :
      TLCEval([i \in 1..Len(e.calls) |->
        LET c == e.calls[i]
            what == c.op \o "(" \o Opt(c, "cfg", "") \o ")"
        IN  IF c.out.k = "err" THEN Bad(what \o " raised " \o c.out.t)
            ELSE CASE c.op = "t_statistic" -> TStatIs(e, g, c.out, what)
                   [] c.op = "t_test" ->
                        IF c.out.k # "ttest" THEN Bad(what \o " is " \o c.out.k)
                        ELSE First(<<TStatIs(e, g, c.out.s, what \o ".statistic"),
                                     PvalueIs(g, c.out.s, c.out.p, what \o ".pvalue")>>)]))
=============================================================================
