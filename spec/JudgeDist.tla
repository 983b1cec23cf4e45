----------------------------- MODULE JudgeDist -----------------------------
(***************************************************************************)
(* Pairwise distances (C15).  Every entry is right to e.tb bits, besides a *)
(* rounding error of the order of 2^-50 of the largest one.  For large     *)
(* samples the observation has the distances between some of the           *)
(* observations only.                                                      *)
(***************************************************************************)
EXTENDS JudgeOps

DistIs(o, a, tb, what) ==
    LET e0 == IF o.e < a.u THEN o.e ELSE a.u
        om == MParse(o.v)
    IN  IF MRows(om) # MRows(a.m) \/ MCols(om) # MCols(a.m) THEN Bad(what \o " has another shape")
        ELSE With(MScale(a.m, NShl(1, a.u - e0)), LAMBDA am :
               Verdict(MWithin(MScale(om, NShl(1, o.e - e0)), am, tb, NDiv(MMaxAbs(am), NShl(1, 50 - tb))), what))

JudgeDist(e) ==
    With([x |-> Sample(e.x), y |-> Sample(IF e.two THEN e.y ELSE e.x)], LAMBDA s :
    With(CDist(s.x, s.y, e.p, e.q), LAMBDA a :
      TLCEval([i \in 1..Len(e.calls) |->
        LET c == e.calls[i]
            what == "pairwise_distances(" \o Opt(c, "cfg", "") \o ")"
        IN  IF c.out.k = "err" THEN Bad(what \o " raised " \o c.out.t)
            ELSE IF c.out.k # "mat" THEN Bad(what \o " is " \o c.out.k)
            ELSE First(<<DistIs(c.out, a, e.tb, what),
                         Verdict(~ ("ns" \in DOMAIN c) \/ c.ns = c.out.ns, what \o " is of another namespace"),
                         IF e.two THEN "ok"
                         ELSE Verdict(\A k \in 1..Len(c.out.v) : c.out.v[k][k] = 0,
                                      what \o ": the diagonal is not 0")>>)])))
=============================================================================
