------------------------------ MODULE FastAlg ------------------------------
(***************************************************************************)
(* The algebra of the fast algorithms: from the sums over {j < i, y_j <    *)
(* y_i} (FastAvl, FastMerge), the terms that enter the distance covariance *)
(* are those of the definition, for all the data and whatever order the    *)
(* sorting gives to equal values.                                          *)
(***************************************************************************)
EXTENDS EStat

CONSTANT NN, MaxV

VARIABLES x, y, ox, oy     \* data; sorting permutations of x, and of y in the order of x

Idx == 1..NN
Perms == {f \in [Idx -> Idx] : \A a, b \in Idx : a # b => f[a] # f[b]}
Sorts(f, v) == \A k \in 1..(NN - 1) : v[f[k]] <= v[f[k + 1]]

(* x is sorted in the first place: a joint relabelling changes nothing *)
Init == /\ x \in {v \in [Idx -> 0..MaxV] : \A k \in 1..(NN - 1) : v[k] <= v[k + 1]}
        /\ y \in [Idx -> 0..MaxV]
        /\ ox = [k \in Idx |-> k] /\ oy = <<>>
Next == /\ oy = <<>>
        /\ ox' \in {f \in Perms : Sorts(f, x)}
        /\ oy' \in {f \in Perms : Sorts(f, [k \in Idx |-> y[ox'[k]]])}
        /\ UNCHANGED <<x, y>>

Abs(k) == IF k < 0 THEN 0 - k ELSE k
Dx == [i \in Idx |-> [j \in Idx |-> Abs(x[i] - x[j])]]
Dy == [i \in Idx |-> [j \in Idx |-> Abs(y[i] - y[j])]]
S1 == MDot(Dx, Dy)

X == [k \in Idx |-> x[ox[k]]]           \* sorted by x
Y == [k \in Idx |-> y[ox[k]]]
RankY == [k \in Idx |-> CHOOSE r \in Idx : oy[r] = k]
Sum(f, Z) == VSum([k \in 1..NN |-> IF k \in Z THEN f[k] ELSE 0])

(* AVL: c_sum - c - 2 (sum of c before in y) - 2 (before in x) + 4 gamma *)
PartialSum(c) == [k \in Idx |->
    VSum(c) - c[k] - 2 * Sum(c, {j \in Idx : RankY[j] < RankY[k]})
    - 2 * Sum(c, {j \in Idx : j < k})
    + 4 * Sum(c, {j \in Idx : j < k /\ RankY[j] < RankY[k]})]
AvlS1 ==
    LET g1 == PartialSum([k \in Idx |-> 1])
        gx == PartialSum(X)
        gy == PartialSum(Y)
        gxy == PartialSum([k \in Idx |-> X[k] * Y[k]])
    IN  VSum([k \in Idx |-> X[k] * Y[k] * g1[k] + gxy[k] - X[k] * gy[k] - Y[k] * gx[k]])
AvlCorrect == oy # <<>> => AvlS1 = S1

(* Mergesort: strict comparison of y, no ranks *)
W(c) == [k \in Idx |-> Sum(c, {j \in Idx : j < k /\ Y[j] < Y[k]})]
MergeS1 ==
    LET w1 == W([k \in Idx |-> 1])  wy == W(Y)  wx == W(X)  wxy == W([k \in Idx |-> X[k] * Y[k]])
        XY == [k \in Idx |-> X[k] * Y[k]]
        st == VDot(XY, w1) - VDot(X, wy) - VDot(Y, wx) + VSum(wxy)
        ct == NN * VDot(X, Y) - 2 * VSum(X) * VSum(Y) + VSum(X) * VSum(Y)
    IN  4 * st - 2 * ct
MergeCorrect == oy # <<>> => MergeS1 = S1

(* Row sums of the distances, from the sorted data *)
RowAvl == [k \in Idx |-> VSum(X) + (2 * (k - 1) - NN) * X[k] - 2 * Sum(X, {j \in Idx : j < k})]
RowMerge == [k \in Idx |-> (2 * k - NN) * X[k] + VSum(X) - 2 * Sum(X, {j \in Idx : j <= k})]
RowsCorrect == oy # <<>> => \A k \in Idx : RowAvl[k] = VSum(Dx[ox[k]]) /\ RowMerge[k] = VSum(Dx[ox[k]])

(* variance term: the sum of the squared distances is 2 n^2 var(x) *)
VarCorrect == oy # <<>> => MDot(Dx, Dx) = 2 * NN * VSum([k \in Idx |-> x[k] * x[k]]) - 2 * VSum(x) * VSum(x)

(* hence the statistics: sums of distances and centred matrices agree *)
A == [m |-> MParse(Dx), u |-> 0]
B == [m |-> MParse(Dy), u |-> 0]
SumsCorrect == oy # <<>> =>
               /\ QEq(DCov2(A, B), DCov2Sums(A, B))
               /\ NN > 3 => QEq(UDCov2(A, B), UDCov2Sums(A, B))
=============================================================================
