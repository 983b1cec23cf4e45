------------------------------- MODULE Buffers -------------------------------
(***************************************************************************)
(* Histories of operations over named buffers (C10): centring with and     *)
(* without out (also out = the input), products, and projection functions  *)
(* that are created once and applied several times.                        *)
(*                                                                         *)
(* The contents of a buffer are a version: every write gives a new one.    *)
(* The histories are replayed into the real library, where the contents    *)
(* are matrices, and judged by JudgeOps.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bufs,     \* names of the buffers
          Length,   \* length of the histories
          None      \* "no out given"

VARIABLES ver,      \* version of the contents of each buffer
          proj,     \* buffer over which the current projection was created (or None)
          pver,     \* version of its contents then
          hist      \* operations so far

vars == <<ver, proj, pver, hist>>

Centrings == {"double_centered", "u_centered"}
Products  == {"mean_product", "u_product"}
Projs     == {"u_projection", "u_complementary_projection"}

Init == ver = [b \in Bufs |-> 0] /\ proj = None /\ pver = 0 /\ hist = <<>>

Op(op, src, out) == [op |-> op, src |-> src, out |-> IF out = None THEN "" ELSE out]

Centre == \E op \in Centrings, b \in Bufs, o \in Bufs \cup {None} :
    /\ ver' = IF o = None THEN ver ELSE [ver EXCEPT ![o] = Len(hist) + 1]
    \* a projection is over a matrix: it ends when the matrix is overwritten
    /\ proj' = IF proj = o THEN None ELSE proj
    /\ UNCHANGED pver
    /\ hist' = Append(hist, Op(op, <<b>>, o))

Product == \E op \in Products, b, c \in Bufs :
    /\ hist' = Append(hist, Op(op, <<b, c>>, None))
    /\ UNCHANGED <<ver, proj, pver>>

Make == \E b \in Bufs :
    /\ proj # b
    /\ proj' = b /\ pver' = ver[b]
    /\ hist' = Append(hist, Op("make", <<b>>, None))
    /\ UNCHANGED ver

Apply == \E op \in Projs, b \in Bufs :
    /\ proj # None
    /\ hist' = Append(hist, Op(op, <<b>>, None))
    /\ UNCHANGED <<ver, proj, pver>>

Next == Len(hist) < Length /\ (Centre \/ Product \/ Make \/ Apply)
Spec == Init /\ [][Next]_vars

(* A projection is over the matrix with which it was created *)
Bound == proj # None => ver[proj] = pver
(* Only the operations with out write, and only out *)
Writes == \A b \in Bufs : ver[b] > 0 => hist[ver[b]].out = b
Useful == \E i \in 1..Len(hist) : hist[i].op # "make"
Emit == (Len(hist) = Length /\ Useful) => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
