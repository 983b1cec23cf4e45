------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace specification.  The trace is what the real library was observed   *)
(* to do; every step consumes one observation and judges it against the    *)
(* definitions.  All the observations are judged, whatever the verdicts.   *)
(***************************************************************************)
EXTENDS JudgeInv, JudgeTest, JudgePartial, JudgeDist, JudgeAff, JudgeT, JudgeDispatch, JudgeCost, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* position in the trace
          nok, nskip, nbad

vars == <<l, nok, nskip, nbad>>

RECURSIVE Judged(_), JudgedAll(_, _)
(* several observations in one *)
JudgedAll(gs, i) == IF i > Len(gs) THEN <<>> ELSE TLCEval(Judged(gs[i])) \o JudgedAll(gs, i + 1)
JudgedOne(e) ==
    CASE e.kind = "pair"     -> JudgePair(e)
      [] e.kind = "coherent" -> JudgeCoherent(e)
      [] e.kind = "inv"      -> JudgeInv(e)
      [] e.kind = "einv"     -> JudgeEInv(e)
      [] e.kind = "energy"   -> JudgeEnergy(e)
      [] e.kind = "ksample"  -> JudgeKSample(e)
      [] e.kind = "test"     -> JudgeTest(e)
      [] e.kind = "equal"    -> JudgeEqual(e)
      [] e.kind = "near"     -> JudgeNear(e)
      [] e.kind = "partial"  -> JudgePartial(e)
      [] e.kind = "ops"      -> JudgeOps(e)
      [] e.kind = "dist"     -> JudgeDist(e)
      [] e.kind = "aff"      -> JudgeAff(e)
      [] e.kind = "ttest"    -> JudgeT(e)
      [] e.kind = "requests" -> JudgeRequests(e)
      [] e.kind = "raise"    -> JudgeRaise(e)
      [] e.kind = "rowwise"  -> JudgeRow(e)
      [] e.kind = "cost"     -> JudgeCost(e)
      [] e.kind = "broken"   -> <<Bad(e.what)>>
(* with the equalities that belong to it *)
Judged(e) ==
    IF e.kind = "many" THEN JudgedAll(e.groups, 1)
    ELSE JudgedOne(e) \o (IF "also" \in DOMAIN e THEN JudgeEqual([calls |-> e.also]) ELSE <<>>)

Count(vs, pre) == Len(SelectSeq(vs, LAMBDA v : SubSeq(v, 1, 1) = pre))

Init == l = 1 /\ nok = 0 /\ nskip = 0 /\ nbad = 0

Next ==
    /\ l <= Len(Trace)
    /\ \E vs \in {TLCEval(Judged(Trace[l]))} :
           /\ nok'   = nok + Count(vs, "o")
           /\ nskip' = nskip + Count(vs, "s")
           /\ nbad'  = nbad + Count(vs, "b")
           /\ \A i \in 1..Len(vs) :
                 vs[i] # "ok" => PrintT(<<"VERDICT", Trace[l].id, i, vs[i]>>)
    /\ l' = l + 1

Spec == Init /\ [][Next]_vars

Done == PrintT(<<"DONE", Len(Trace), TLCGet("stats").diameter - 1>>)
Report == l = Len(Trace) + 1 => PrintT(<<"COUNTS", nok, nskip, nbad>>)
=============================================================================
