-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* How many steps the fast algorithms take and how much they store, as a   *)
(* function of the number n of observations.  FastAvl and FastMerge are    *)
(* checked against these numbers; JudgeCost allows the real code a         *)
(* generous constant times them.                                           *)
(***************************************************************************)
EXTENDS Integers

Levels(n) == CHOOSE k \in 0..30 : n <= 2^k /\ (k > 0 => 2^(k - 1) < n)

(* AVL: for each observation but the first, every level is visited twice *)
AvlSteps(n) == 2 * (n - 1) * (Levels(n) + 1)
AvlCells(n) == 4 * n
(* mergesort: in each level, a step for each observation and each pair *)
MergeLevel(n) == 2 * n + 1
MergeSteps(n) == Levels(n) * MergeLevel(n) + 1
(* both are of the order of n log n *)
Steps(n) == IF AvlSteps(n) > MergeSteps(n) THEN AvlSteps(n) ELSE MergeSteps(n)
=============================================================================
