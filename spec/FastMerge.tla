----------------------------- MODULE FastMerge -----------------------------
(***************************************************************************)
(* The weight sums of the mergesort algorithm                              *)
(* (dcor/_fast_dcov_mergesort.py): a bottom-up mergesort of y (descending) *)
(* that, whenever an element of the right block is taken, adds to it the   *)
(* weights of what remains in the left block.  At the end sums[i] must be  *)
(* the sum of the weights of the j < i with y[j] < y[i], and the elements  *)
(* must be sorted.  Symbolic weights, as in FastAvl.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Cost

CONSTANT MinN, MaxN, MaxY

VARIABLES n, y, prev, cur, sums, len, pair, i1, i2, out, pc

vars == <<n, y, prev, cur, sums, len, pair, i1, i2, out, pc>>

Min(a, b) == IF a < b THEN a ELSE b

Init == /\ n \in MinN..MaxN
        /\ y \in [0..(n - 1) -> 0..MaxY]
        /\ prev = [k \in 0..(n - 1) |-> k]
        /\ cur = [k \in 0..(n - 1) |-> 0]
        /\ sums = [k \in 0..(n - 1) |-> {}]
        /\ len = 1 /\ pair = 0 /\ i1 = 0 /\ i2 = 1 /\ out = 0
        /\ pc = "merge"

Last1 == Min(pair + len - 1, n - 1)
Last2 == Min(pair + 2 * len - 1, n - 1)
Busy == i1 <= Last1 /\ i2 <= Last2

Step ==
    /\ pc = "merge" /\ len < n /\ pair < n /\ Busy
    /\ IF y[prev[i1]] >= y[prev[i2]]
       THEN /\ cur' = [cur EXCEPT ![out] = prev[i1]]
            /\ i1' = i1 + 1 /\ UNCHANGED <<i2, sums>>
       ELSE /\ cur' = [cur EXCEPT ![out] = prev[i2]]
            /\ i2' = i2 + 1 /\ UNCHANGED i1
            /\ sums' = [sums EXCEPT ![prev[i2]] = @ \cup {prev[k] : k \in i1..Last1}]
    /\ out' = out + 1
    /\ UNCHANGED <<n, y, prev, len, pair, pc>>

(* copy what remains of one block and go to the next pair of blocks *)
Remain ==
    /\ pc = "merge" /\ len < n /\ pair < n /\ ~ Busy
    /\ LET lo == IF i1 <= Last1 THEN i1 ELSE i2
           hi == IF i1 <= Last1 THEN Last1 ELSE Last2
       IN  /\ cur' = [k \in 0..(n - 1) |->
                        IF k >= out /\ k <= out + hi - lo THEN prev[lo + k - out] ELSE cur[k]]
           /\ out' = out + (IF hi >= lo THEN hi - lo + 1 ELSE 0)
    /\ pair' = pair + 2 * len
    /\ i1' = pair + 2 * len /\ i2' = pair + 3 * len
    /\ UNCHANGED <<n, y, prev, sums, len, pc>>

(* all the pairs merged: swap the buffers, double the length *)
Level ==
    /\ pc = "merge" /\ len < n /\ pair >= n
    /\ prev' = cur /\ cur' = prev
    /\ len' = 2 * len /\ pair' = 0 /\ i1' = 0 /\ i2' = 2 * len /\ out' = 0
    /\ UNCHANGED <<n, y, sums, pc>>

Finish == pc = "merge" /\ len >= n /\ pc' = "done"
          /\ UNCHANGED <<n, y, prev, cur, sums, len, pair, i1, i2, out>>

Next == Step \/ Remain \/ Level \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == pc = "done" =>
    /\ \A k \in 0..(n - 1) : sums[k] = {j \in 0..(k - 1) : y[j] < y[k]}
    /\ {prev[k] : k \in 0..(n - 1)} = 0..(n - 1)
    /\ \A k \in 0..(n - 2) : y[prev[k]] >= y[prev[k + 1]]
(* every level ends having written each position once *)
Full == (len < n /\ pair >= n) => out = n
Ends == <>(pc = "done")
(* quasi-linear resources: every action increases a number bounded by them *)
Taken == Levels(len) * MergeLevel(n) + out + pair \div (2 * len) + (IF pc = "done" THEN 1 ELSE 0)
Few == Taken <= MergeSteps(n)
Advances == [][Taken' > Taken]_vars
=============================================================================
