------------------------------ MODULE FastAvl ------------------------------
(***************************************************************************)
(* The partial sums of the AVL algorithm (dcor/_fast_dcov_avl.py): for     *)
(* points sorted by x, with y = the ranks 1..n, gamma[i] must be the sum   *)
(* of the weights c[j] with j < i and y[j] < y[i].  The sums are kept over *)
(* dyadic blocks of ranks, in one flat array s.                            *)
(*                                                                         *)
(* The weights are symbolic: a sum of weights is the set of the indices    *)
(* summed (a weight added twice makes the invariant Once fail).  One       *)
(* action per inner loop step of the code.  Indices start at 0, as there.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC, Cost

CONSTANT MinN, MaxN

VARIABLES n, y, s, gamma, i, l, pc, twice

vars == <<n, y, s, gamma, i, l, pc, twice>>

Pow2(k) == 2^k
LMax == Levels(n)
SLen == Pow2(LMax + 1)
RECURSIVE PosSum(_)
PosSum(k) == Pow2(LMax - k) + (IF k = 0 THEN 0 ELSE PosSum(k - 1))
Ceil(a, b) == (a + b - 1) \div b
Base(k) == IF k > 0 THEN PosSum(k - 1) ELSE 0

Perms(k) == {f \in [0..(k - 1) -> 1..k] : \A a, b \in 0..(k - 1) : a # b => f[a] # f[b]}

Init == /\ n \in MinN..MaxN
        /\ y \in Perms(n)
        /\ s = [k \in 0..(SLen - 1) |-> {}]
        /\ gamma = [k \in 0..(n - 1) |-> {}]
        /\ i = 1 /\ l = 0 /\ pc = "update" /\ twice = FALSE

(* Step 3.a: add the weight of point i-1 to its block of level l *)
UpdatePos == Ceil(y[i - 1], Pow2(l)) - 1 + Base(l)
Update ==
    /\ pc = "update" /\ i < n
    /\ IF l < LMax
       THEN /\ twice' = (twice \/ (i - 1) \in s[UpdatePos])
            /\ s' = [s EXCEPT ![UpdatePos] = @ \cup {i - 1}]
            /\ l' = l + 1 /\ UNCHANGED pc
       ELSE l' = 0 /\ pc' = "query" /\ UNCHANGED <<s, twice>>
    /\ UNCHANGED <<n, y, gamma, i>>

(* Steps 3.b, 3.c: the blocks that cover the ranks smaller than y[i] *)
Block == (y[i] - 1) \div Pow2(l) - 1
Query ==
    /\ pc = "query"
    /\ IF l < LMax
       THEN /\ IF Block % 2 = 0
               THEN /\ twice' = (twice \/ gamma[i] \cap s[Block + Base(l)] # {})
                    /\ gamma' = [gamma EXCEPT ![i] = @ \cup s[Block + Base(l)]]
               ELSE UNCHANGED <<gamma, twice>>
            /\ l' = l + 1 /\ UNCHANGED <<pc, i>>
       ELSE l' = 0 /\ i' = i + 1 /\ pc' = "update" /\ UNCHANGED <<gamma, twice>>
    /\ UNCHANGED <<n, y, s>>

Next == Update \/ Query
Spec == Init /\ [][Next]_vars

InBounds ==
    /\ (pc = "update" /\ i < n /\ l < LMax) => UpdatePos \in 0..(SLen - 1)
    /\ (pc = "query" /\ l < LMax /\ Block % 2 = 0) => Block + Base(l) \in 0..(SLen - 1)
Once == ~ twice
Below(k) == {j \in 0..(k - 1) : y[j] < y[k]}
Correct == \A k \in 0..(i - 1) : gamma[k] = Below(k)
(* the same sums, from the vectorized (not compiled) formulation: the blocks
   [b * 2^l, (b+1) * 2^l) with b even cover exactly the ranks below y[k] *)
Covers == i = n => \A k \in 0..(n - 1) :
    {r \in 1..n : \E q \in 0..(LMax - 1) :
        LET b == (y[k] - 1) \div Pow2(q) - 1
        IN  b % 2 = 0 /\ b >= 0 /\ Ceil(r, Pow2(q)) - 1 = b} = 1..(y[k] - 1)
(* quasi-linear resources: every action is one more step, and these are few *)
Taken == (i - 1) * 2 * (LMax + 1) + (IF pc = "query" THEN LMax + 1 ELSE 0) + l
Few == Taken <= AvlSteps(n) /\ SLen <= AvlCells(n)
Advances == [][Taken' = Taken + 1]_vars
=============================================================================
