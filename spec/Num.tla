-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Unbounded integers, vectors and matrices of integers.                   *)
(*                                                                         *)
(* TLC's integers have 32 bits.  Every operator below has an ordinary      *)
(* TLA+ definition over Int; java/Num.java overrides it with the same      *)
(* function over unbounded integers (a number that fits in 32 bits stays   *)
(* an ordinary TLC integer).  NumSelf.tla checks that the override and     *)
(* the definitions below agree.                                            *)
(*                                                                         *)
(* A matrix is a sequence of rows (1-based).  MParse makes one out of      *)
(* nested sequences of integers or decimal strings (from JSON).            *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE PowR(_, _)
PowR(a, k) == IF k = 0 THEN 1 ELSE a * PowR(a, k - 1)

RECURSIVE SumR(_)
SumR(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumR(Tail(s))

NParse(v)   == v                       \* the integer a JSON value denotes
NAdd(a, b)  == a + b
NSub(a, b)  == a - b
NMul(a, b)  == a * b
NNeg(a)     == 0 - a
NAbs(a)     == IF a < 0 THEN 0 - a ELSE a
NSign(a)    == IF a < 0 THEN 0 - 1 ELSE IF a = 0 THEN 0 ELSE 1
NLeq(a, b)  == a <= b
NLt(a, b)   == a < b
NEq(a, b)   == a = b
NMax(a, b)  == IF a < b THEN b ELSE a
NPow(a, k)  == PowR(a, k)
NDiv(a, b)  == a \div b                \* floor division, b > 0
NShl(a, k)  == a * PowR(2, k)          \* k >= 0
NBits(a)    == CHOOSE k \in 0..31 : /\ NAbs(a) < PowR(2, k)      \* bit length
                                    /\ k > 0 => PowR(2, k - 1) <= NAbs(a)
NRoot(a, k) == CHOOSE r \in 0..a : PowR(r, k) <= a /\ a < PowR(r + 1, k)
NGcd(a, b)  == IF a = 0 /\ b = 0 THEN 1
               ELSE CHOOSE g \in 1..NMax(NAbs(a), NAbs(b)) :
                      /\ a % g = 0 /\ b % g = 0
                      /\ \A h \in 1..NMax(NAbs(a), NAbs(b)) :
                            (a % h = 0 /\ b % h = 0) => h <= g

(* Vectors: sequences of numbers *)
VSum(v)     == SumR(v)
VDot(u, v)  == SumR([i \in 1..Len(u) |-> u[i] * v[i]])

(* Sums over the distances inside a sample of numbers *)
VAbsDot(u, v) == SumR([i \in 1..Len(u) |-> SumR([j \in 1..Len(u) |->
                     NAbs(u[i] - u[j]) * NAbs(v[i] - v[j])])])
VAbsRows(u) == [i \in 1..Len(u) |-> SumR([j \in 1..Len(u) |-> NAbs(u[i] - u[j])])]

(* Matrices *)
MParse(s)   == s
MRows(A)    == Len(A)
MCols(A)    == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
MAt(A, i, j) == A[i][j]
MRow(A, i)  == A[i]
MCol(A, j)  == [i \in 1..Len(A) |-> A[i][j]]
MEq(A, B)   == A = B
MMake(n, m, f(_, _)) == [i \in 1..n |-> [j \in 1..m |-> f(i, j)]]
MScale(A, k) == [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |-> k * A[i][j]]]
MAdd(A, B)  == [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |-> A[i][j] + B[i][j]]]
MSub(A, B)  == [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |-> A[i][j] - B[i][j]]]
MAbs(A)     == [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |-> NAbs(A[i][j])]]
MTake(A, r, c) == [i \in 1..Len(r) |-> [j \in 1..Len(c) |-> A[r[i]][c[j]]]]
MTrans(A)   == [j \in 1..MCols(A) |-> [i \in 1..MRows(A) |-> A[i][j]]]
MMul(A, B)  == [i \in 1..MRows(A) |-> [j \in 1..MCols(B) |->
                   VDot(A[i], MCol(B, j))]]
MRowSums(A) == [i \in 1..MRows(A) |-> VSum(A[i])]
MColSums(A) == [j \in 1..MCols(A) |-> VSum(MCol(A, j))]
MTotal(A)   == VSum(MRowSums(A))
MMaxAbs(A)  == IF A = <<>> THEN 0
               ELSE CHOOSE m \in {NAbs(A[i][j]) : i \in 1..MRows(A), j \in 1..MCols(A)} :
                      \A i \in 1..MRows(A), j \in 1..MCols(A) : NAbs(A[i][j]) <= m
(* every entry of A is that of B but for one part in 2^k and t/2^k *)
MWithin(A, B, k, t) ==
    /\ MRows(A) = MRows(B) /\ MCols(A) = MCols(B)
    /\ \A i \in 1..MRows(A), j \in 1..MCols(A) :
          NAbs(A[i][j] - B[i][j]) * PowR(2, k) <= NAbs(B[i][j]) + t
(* Frobenius product: the sum of a_ij * b_ij *)
MDot(A, B)  == VSum([i \in 1..MRows(A) |-> VDot(A[i], B[i])])
(* k * a_ij - r_i - c_j + t *)
MShift(A, k, r, c, t) ==
    [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |-> k * A[i][j] - r[i] - c[j] + t]]
MZeroDiag(A) == [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |->
                    IF i = j THEN 0 ELSE A[i][j]]]
(* Squared Euclidean distance between row i of X and row j of Y *)
MSqDist(X, Y) == [i \in 1..MRows(X) |-> [j \in 1..MRows(Y) |->
                    VSum([k \in 1..MCols(X) |-> (X[i][k] - Y[j][k]) * (X[i][k] - Y[j][k])])]]
(* floor of 2^f * a_ij^(p/q) *)
MPowRoot(A, p, q, f) == [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |->
                    NRoot(NShl(NPow(A[i][j], p), q * f), q)]]
(* 2^f * a_ij^(p/2^k), from the binary digits of p/2^k: square roots of
   square roots, each rounded to 2^-f (a_ij = 0 or a_ij >= 1) *)
RECURSIVE DyadR(_, _, _, _, _)
DyadR(acc, s, p, k, f) ==
    IF k = 0 THEN acc
    ELSE LET h == NRoot(NShl(s, f), 2)
             w == PowR(2, k - 1)
         IN  DyadR(IF p >= w THEN NDiv(NMul(acc, h), NShl(1, f)) ELSE acc, h, p % w, k - 1, f)
MPowDyad(A, p, k, f) == [i \in 1..MRows(A) |-> [j \in 1..MCols(A) |->
    DyadR(NShl(NPow(A[i][j], p \div PowR(2, k)), f), NShl(A[i][j], f), p % PowR(2, k), k, f)]]
(* determinant, and the matrix of cofactors, transposed (n x n, n >= 1) *)
Others(k, i) == [j \in 1..(k - 1) |-> IF j < i THEN j ELSE j + 1]
RECURSIVE MDet(_)
MDet(M) == IF Len(M) = 1 THEN M[1][1]
           ELSE SumR([j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE 0 - 1) * M[1][j] *
                        MDet(MTake(M, Others(Len(M), 1), Others(Len(M), j)))])
MAdj(M) == IF Len(M) = 1 THEN <<<<1>>>>
           ELSE [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE 0 - 1) *
                        MDet(MTake(M, Others(Len(M), j), Others(Len(M), i)))]]
(* the vector as a sorted (ascending) sequence *)
VSort(v)    == CHOOSE s \in [1..Len(v) -> {v[i] : i \in 1..Len(v)}] :
                 /\ \A i \in 1..(Len(v) - 1) : s[i] <= s[i + 1]
                 /\ \A x \in {v[i] : i \in 1..Len(v)} :
                       Len(SelectSeq(s, LAMBDA y : y = x)) =
                       Len(SelectSeq(v, LAMBDA y : y = x))
=============================================================================
