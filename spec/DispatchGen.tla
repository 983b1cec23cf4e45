---------------------------- MODULE DispatchGen ----------------------------
(* Every request, with what must happen: given to the real code. *)
EXTENDS Dispatch

CONSTANT Rows      \* TRUE: rowwise requests

Exps == {<<1, 1>>, <<1, 2>>, <<3, 2>>, <<2, 1>>, <<5, 2>>,
         <<1048577, 1048576>>, <<65535, 65536>>, <<2097151, 1048576>>}
RExps == {<<1, 1>>, <<1, 2>>, <<1048577, 1048576>>}
RModes == {"auto", "naive", "optimized"}
Fns == {"measure", "user"}

VARIABLES req

Init == req = <<>>
Next == /\ req = <<>>
        /\ \E meth \in Methods \cup {"nonsense"}, mode \in Modes, k \in Kinds, pq \in (IF Rows THEN RExps ELSE Exps) :
             IF Rows
             THEN \E rm \in RModes, fn \in Fns :
                    /\ meth # "nonsense" /\ ~ Unequal(k) /\ k # "strict"
                    /\ fn = "user" => meth = "auto" /\ mode = "auto" /\ pq = <<1, 1>>
                    /\ req' = [meth |-> meth, mode |-> mode, kind |-> k, p |-> pq[1], q |-> pq[2],
                               rmode |-> rm, fn |-> fn,
                               expect |-> RowServes(rm, fn, meth, mode, k, pq = <<1, 1>>)]
             ELSE req' = [meth |-> meth, mode |-> mode, kind |-> k, p |-> pq[1], q |-> pq[2],
                          expect |-> Serves(meth, mode, k, pq = <<1, 1>>), warns |-> Warns(pq[1], pq[2])]

Emit == req # <<>> => PrintT(<<"GEN", ToJson(req)>>)
Consistent ==     \* a fast method never serves what it cannot
    (req # <<>> /\ ~ Rows) =>
      /\ (req.meth \in {"avl", "mergesort"} /\ req.p # req.q) => req.expect = "raise"
      /\ (req.meth = "auto" /\ req.mode = "auto" /\ ~ Unequal(req.kind)) => req.expect = "value"
=============================================================================
