------------------------------- MODULE EStat -------------------------------
(***************************************************************************)
(* The energy statistics that dcor computes, written from their            *)
(* definitions (Szekely, Rizzo et al.) and not from the code.              *)
(*                                                                         *)
(* A sample is a record [v, e]: a matrix of integers v (one row per        *)
(* observation) and a binary exponent e; the data are v * 2^e.             *)
(* A distance matrix is [m, u]: integers m, in units of 2^u.               *)
(* The statistics are rationals (Rat.tla): exact, given the distances.     *)
(* Distances with an irrational value are rounded to 2^-FRAC units.        *)
(***************************************************************************)
EXTENDS Rat, TLC

FRAC == 80

(* Op(v).  For TLC: v is evaluated once (a LET may be evaluated at every use). *)
With(v, Op(_)) == CHOOSE r \in {Op(x) : x \in {TLCEval(v)}} : TRUE

N(s) == MRows(s.v)
D(s) == MCols(s.v)

(* ||x_i - y_j||^(p/q) for all i, j *)
CDist(x, y, p, q) ==
    LET e  == IF x.e < y.e THEN x.e ELSE y.e
        X  == MScale(x.v, NShl(1, x.e - e))
        Y  == MScale(y.v, NShl(1, y.e - e))
        S  == MSqDist(X, Y)
        u  == (e * p) \div q
        ok == Assert((e * p) % q = 0, <<"the unit of the distances is not a power of 2", e, p, q>>)
    IN  IF ok /\ q = 1 /\ p % 2 = 0 THEN [m |-> MPowRoot(S, p \div 2, 1, 0), u |-> u]
        ELSE IF ok /\ q = 1 /\ D(x) = 1 THEN [m |-> MPowRoot(S, p, 2, 0), u |-> u]
        ELSE IF q > 64       \* a power of 2
        THEN [m |-> MPowDyad(S, p, NBits(q), FRAC), u |-> u - FRAC]
        ELSE [m |-> MPowRoot(S, p, 2 * q, FRAC), u |-> u - FRAC]

PDist(x, p, q) == CDist(x, x, p, q)

(* largest entry of a distance matrix: the scale of the rounding errors *)
Radius(a) == <<MMaxAbs(a.m), 1, a.u>>

Size(a) == MRows(a.m)

LOCAL Times(k, v) == [i \in 1..Len(v) |-> NMul(k, v[i])]

(* double centering, times n^2 *)
DCentered(a) ==
    LET n == Size(a)
    IN  [m |-> MShift(a.m, NMul(n, n), Times(n, MRowSums(a.m)),
                      Times(n, MColSums(a.m)), MTotal(a.m)),
         u |-> a.u, d |-> NMul(n, n)]

(* U-centering, times (n-1)(n-2) *)
UCentered(a) ==
    LET n == Size(a)
        k == (n - 1) * (n - 2)
    IN  [m |-> MZeroDiag(MShift(a.m, k, Times(n - 1, MRowSums(a.m)),
                                Times(n - 1, MColSums(a.m)), MTotal(a.m))),
         u |-> a.u, d |-> k]

(* mean of the products of the entries of two (centered) matrices *)
MeanProd(A, B) == <<MDot(A.m, B.m),
                    NMul(NMul(A.d, B.d), NMul(MRows(A.m), MCols(A.m))), A.u + B.u>>

(* inner product of the U-centered matrices, n > 3 *)
UProd(A, B) == LET n == Size(A)
               IN  <<MDot(A.m, B.m), NMul(NMul(A.d, B.d), NMul(n, n - 3)), A.u + B.u>>

DCov2(a, b)  == MeanProd(DCentered(a), DCentered(b))
UDCov2(a, b) == UProd(UCentered(a), UCentered(b))

(* The same through the sums of the distances (what the fast algorithms use) *)
DCov2Sums(a, b) ==
    LET n  == Size(a)
        s1 == MDot(a.m, b.m)
        s2 == VDot(MRowSums(a.m), MRowSums(b.m))
        s3 == NMul(MTotal(a.m), MTotal(b.m))
    IN  <<NAdd(NSub(NMul(NMul(n, n), s1), NMul(2 * n, s2)), s3), NPow(n, 4), a.u + b.u>>
UDCov2Sums(a, b) ==
    LET n  == Size(a)
        s1 == MDot(a.m, b.m)
        s2 == VDot(MRowSums(a.m), MRowSums(b.m))
        s3 == NMul(MTotal(a.m), MTotal(b.m))
    IN  <<NAdd(NSub(NMul(NMul(n - 1, n - 2), s1), NMul(2 * (n - 1), s2)), s3),
          NMul(NMul(n, n - 1), NMul(n - 2, n - 3)), a.u + b.u>>

(* ... for samples of numbers u, v (integers), without the matrices *)
LineSums(u, v) ==
    With([a |-> VAbsRows(u), b |-> VAbsRows(v)], LAMBDA w :
      [n |-> Len(u), ab |-> VAbsDot(u, v), dot |-> VDot(w.a, w.b), ta |-> VSum(w.a), tb |-> VSum(w.b)])
(* ... where the observation (u_k, v_k) appears c_k times *)
TallySums(u, v, c) ==
    LET k == Len(c)
        Gaps(w) == MMake(k, k, LAMBDA i, j : NAbs(NSub(w[i], w[j])))
        Rows(d) == [i \in 1..k |-> VDot(MRow(d, i), c)]
    IN  With([a |-> Gaps(u), b |-> Gaps(v)], LAMBDA d :
        With([a |-> Rows(d.a), b |-> Rows(d.b)], LAMBDA r :
          [n |-> VSum(c),
           ab |-> VDot(c, [i \in 1..k |-> VDot([j \in 1..k |-> NMul(c[j], MAt(d.a, i, j))], MRow(d.b, i))]),
           dot |-> VDot(c, [i \in 1..k |-> NMul(r.a[i], r.b[i])]),
           ta |-> VDot(c, r.a), tb |-> VDot(c, r.b)]))
LineCov(s) == LET n == s.n
              IN  <<NAdd(NSub(NMul(NMul(n, n), s.ab), NMul(2 * n, s.dot)), NMul(s.ta, s.tb)), NPow(n, 4), 0>>
LineUCov(s) == LET n == s.n
               IN  <<NAdd(NSub(NMul(NMul(n - 1, n - 2), s.ab), NMul(2 * (n - 1), s.dot)), NMul(s.ta, s.tb)),
                     NMul(NMul(n, n - 1), NMul(n - 2, n - 3)), 0>>

(* Partial distance covariance: the U-product of the projections of A and B
   over the orthogonal complement of C *)
PDCov(A, B, C) ==
    LET cc == UProd(C, C)
    IN  IF QIsZero(cc) THEN UProd(A, B)
        ELSE QSub(UProd(A, B), QDiv(QMul(UProd(A, C), UProd(B, C)), cc))

(* entries of a matrix, as a sequence *)
Flat(m) == LET r == MRows(m)  c == MCols(m)
           IN  [k \in 1..(r * c) |-> MAt(m, ((k - 1) \div c) + 1, ((k - 1) % c) + 1)]
(* entries above the diagonal *)
RECURSIVE UpperFrom(_, _)
UpperFrom(m, i) == IF i > MRows(m) THEN <<>>
                   ELSE SubSeq(MRow(m, i), i + 1, MCols(m)) \o UpperFrom(m, i + 1)
Upper(m) == UpperFrom(m, 1)

(* The averages offered to energy_distance: they map a sequence to a rational *)
Mean(s)   == <<VSum(s), Len(s), 0>>
Median(s) == LET t == VSort(s)  k == Len(s)
             IN  IF k % 2 = 1 THEN <<t[(k + 1) \div 2], 1, 0>>
                 ELSE <<NAdd(t[k \div 2], t[k \div 2 + 1]), 2, 0>>
MaxOf(s)  == <<VSort(s)[Len(s)], 1, 0>>
MinOf(s)  == <<VSort(s)[1], 1, 0>>
MidRange(s) == LET t == VSort(s) IN <<NAdd(t[1], t[Len(t)]), 2, 0>>
Avg(f, s) == CASE f = "mean" -> Mean(s) [] f = "median" -> Median(s) [] f = "max" -> MaxOf(s)
               [] f = "min" -> MinOf(s) [] f = "midrange" -> MidRange(s)

(* average of the entries of a distance matrix *)
AvgAll(f, a)   == IF f = "mean" THEN <<MTotal(a.m), NMul(MRows(a.m), MCols(a.m)), a.u>>
                  ELSE QShl(Avg(f, Flat(a.m)), a.u)
AvgUpper(f, a) == QShl(Avg(f, Upper(a.m)), a.u)

(* Energy distance from the distance matrices *)
EnergyD(f, est, axx, ayy, axy) ==
    QSub(QMul(QInt(2), AvgAll(f, axy)),
         IF est = "V" THEN QAdd(AvgAll(f, axx), AvgAll(f, ayy))
         ELSE QAdd(AvgUpper(f, axx), AvgUpper(f, ayy)))

Range(i, k) == [j \in 1..k |-> i + j - 1]

(* Energy test statistic of k samples, from the pooled distance matrix *)
LOCAL Sub(a, r, c) == [m |-> MTake(a.m, r, c), u |-> a.u]
RECURSIVE Starts(_, _)
Starts(sizes, i) == IF i = 1 THEN 1 ELSE Starts(sizes, i - 1) + sizes[i - 1]
PairEnergy(f, est, a, ri, rj) ==
    With([xx |-> Sub(a, ri, ri), yy |-> Sub(a, rj, rj), xy |-> Sub(a, ri, rj)], LAMBDA d :
      QMul(<<Len(ri) * Len(rj), Len(ri) + Len(rj), 0>>, EnergyD(f, est, d.xx, d.yy, d.xy)))
RECURSIVE SumPairs(_, _, _, _, _)
SumPairs(f, est, a, groups, ps) ==
    IF ps = <<>> THEN QZero
    ELSE With([p |-> PairEnergy(f, est, a, groups[Head(ps)[1]], groups[Head(ps)[2]]),
               rest |-> SumPairs(f, est, a, groups, Tail(ps))], LAMBDA v : QAdd(v.p, v.rest))
RECURSIVE PairsUpTo(_)
PairsUpTo(k) == IF k < 2 THEN <<>>
                ELSE PairsUpTo(k - 1) \o [i \in 1..(k - 1) |-> <<i, k>>]
(* order: the pooled observations in the order in which they are dealt to the samples *)
KSampleEnergy(f, est, a, sizes, order) ==
    With([i \in 1..Len(sizes) |-> SubSeq(order, Starts(sizes, i), Starts(sizes, i) + sizes[i] - 1)], LAMBDA groups :
    With(PairsUpTo(Len(sizes)), LAMBDA pairs :
      (SumPairs(f, est, a, groups, pairs))))
=============================================================================
