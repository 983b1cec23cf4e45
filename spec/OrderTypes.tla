----------------------------- MODULE OrderTypes -----------------------------
(***************************************************************************)
(* All the order types of n points in the plane: every pair of weak orders *)
(* (ties included) up to a joint relabelling of the points.  The points    *)
(* are built in lexicographic order; a complete set is printed, to be      *)
(* given to the real code.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT MinN, MaxN

VARIABLES n, pts

Init == n \in MinN..MaxN /\ pts = <<>>

LastX == IF pts = <<>> THEN 0 - 1 ELSE pts[Len(pts)][1]
LastY == pts[Len(pts)][2]

Next ==
    /\ Len(pts) < n
    /\ \E dx \in 0..1, y \in 0..(n - 1) :
          /\ pts = <<>> => dx = 1
          /\ dx = 0 => y >= LastY
          /\ pts' = Append(pts, <<LastX + dx, y>>)
    /\ UNCHANGED n

Ys == {pts[i][2] : i \in 1..Len(pts)}
Complete == Len(pts) = n /\ \A y \in Ys : \A z \in 0..y : z \in Ys

Emit == Complete =>
    PrintT(<<"GEN", ToJson([x |-> [i \in 1..n |-> pts[i][1]],
                            y |-> [i \in 1..n |-> pts[i][2]]])>>)
=============================================================================
