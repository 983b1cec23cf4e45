------------------------------ MODULE JudgeAff ------------------------------
(***************************************************************************)
(* Affinely invariant distance correlation (C16): distance correlation     *)
(* with the Mahalanobis distances.  With integer data X, C = n X'X - s s'  *)
(* is n(n-1) times the covariance matrix, and the squared Mahalanobis      *)
(* distances are n(n-1)/det(C) times (x_i-x_j)' adj(C) (x_i-x_j): exact    *)
(* integers, up to a factor that the correlation ignores.                  *)
(***************************************************************************)
EXTENDS Judge

Scatter(v) ==
    LET n == MRows(v)
        s == MParse(<<MColSums(v)>>)
    IN  MSub(MScale(MMul(MTrans(v), v), n), MMul(MTrans(s), s))

(* distances, up to a constant factor; of a sample with regular covariance *)
Mahalanobis(v) ==
    With(Scatter(v), LAMBDA C :
    With(MMul(MMul(v, MAdj(C)), MTrans(v)), LAMBDA G :
    With([i \in 1..MRows(v) |-> NNeg(MAt(G, i, i))], LAMBDA dg :
      \* -2 g_ij + g_ii + g_jj
      [m |-> MPowRoot(MShift(G, 0 - 2, dg, dg, 0), 1, 2, FRAC), u |-> 0 - FRAC])))

(* how far C is from singular: det / product of the diagonal *)
RECURSIVE DiagProd(_, _)
DiagProd(M, i) == IF i = 0 THEN 1 ELSE NMul(MAt(M, i, i), DiagProd(M, i - 1))
Regular(v) == With(Scatter(v), LAMBDA C :
                NLt(DiagProd(C, MRows(C)), NShl(MDet(C), 10)))

IsConst(v) == \A i \in 1..MRows(v) : MEq(MTake(v, <<i>>, Range(1, MCols(v))), MTake(v, <<1>>, Range(1, MCols(v))))

AffIs(e, out, root, what) ==
    With([x |-> Sample(e.x), y |-> Sample(e.y)], LAMBDA s :
      IF out.k # "val" THEN Bad(what \o " is " \o out.k)
      ELSE IF IsConst(s.x.v) \/ IsConst(s.y.v)
      THEN Verdict(QIsZero(QFloat(out.v)), what \o " of a constant sample is not 0")
      ELSE IF ~ Regular(s.x.v) \/ ~ Regular(s.y.v) THEN Skip("singular covariance")
      ELSE With([a |-> Mahalanobis(s.x.v), b |-> Mahalanobis(s.y.v)], LAMBDA m :
           With([a |-> DCentered(m.a), b |-> DCentered(m.b)], LAMBDA d :
             CorrelOutIs(out, root, MeanProd(d.a, d.b), MeanProd(d.a, d.a), MeanProd(d.b, d.b),
                         [margin |-> Opt(e, "margin", 12), ra |-> Radius(m.a), rb |-> Radius(m.b),
                          tol |-> Tol(e, Radius(m.a), Radius(m.b)),
                          tx |-> Tol(e, Radius(m.a), Radius(m.a)),
                          ty |-> Tol(e, Radius(m.b), Radius(m.b))], what))))

JudgeAff(e) ==
    TLCEval([i \in 1..Len(e.calls) |->
      LET c == e.calls[i]
          what == c.op \o "(" \o Opt(c, "cfg", "") \o ")"
      IN  IF c.out.k = "err" THEN Bad(what \o " raised " \o c.out.t)
          ELSE AffIs(e, c.out, c.op = "af_inv", what)])
=============================================================================
