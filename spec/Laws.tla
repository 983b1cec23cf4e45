-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws that the definitions in EStat must satisfy, checked exhaustively   *)
(* on small integer samples.  They validate the oracle (a definition that  *)
(* is wrong would break one of them) and are properties users rely on.     *)
(***************************************************************************)
EXTENDS EStat

CONSTANT NN, MaxV, Dim

VARIABLES x, y, z

Idx == 1..NN
Pts == [1..Dim -> 0..MaxV]
Init == /\ x \in [Idx -> Pts]
        /\ y \in [Idx -> [1..1 -> 0..MaxV]]
        /\ z = <<>>
        \* up to a joint relabelling
        /\ \A i \in 1..(NN - 1) : x[i][1] <= x[i + 1][1]
Next == /\ z = <<>>
        /\ z' \in {[i \in Idx |-> <<(i * i * k) % (MaxV + 2)>>] : k \in 0..2}
        /\ UNCHANGED <<x, y>>
Zs == z # <<>>      \* the states to be checked

S(v) == [v |-> MParse([i \in Idx |-> [k \in 1..Len(v[i]) |-> v[i][k]]]), e |-> 0]

Tiny == QShl(QOne, -60)
Pos(q) == QLeq(QNeg(Tiny), q)
Eq(a, b) == QNear(a, b, Tiny)
Constant(v) == \A i, j \in Idx : v[i] = v[j]
Perm(v, f) == [i \in Idx |-> v[f[i]]]
Rev == [i \in Idx |-> NN + 1 - i]
Rot == [i \in Idx |-> (i % NN) + 1]

Law(p, q) ==
  With([a |-> PDist(S(x), p, q), b |-> PDist(S(y), p, q)], LAMBDA m :
  With([cov |-> DCov2(m.a, m.b), vx |-> DCov2(m.a, m.a), vy |-> DCov2(m.b, m.b)], LAMBDA v :
    /\ Pos(v.vx) /\ Pos(v.vy)
    /\ Pos(v.cov)                                         \* a V-statistic is not negative
    /\ Pos(QSub(QMul(v.vx, v.vy), QMul(v.cov, v.cov)))    \* Cauchy-Schwarz
    /\ Constant(x) => QIsZero(v.vx) /\ QIsZero(v.cov)
    /\ ~ Constant(x) => QLt(Tiny, v.vx)
    /\ Eq(v.cov, DCov2Sums(m.a, m.b))
    /\ Eq(v.cov, DCov2(m.b, m.a))
    /\ \A f \in {Rev, Rot} : Eq(v.cov, DCov2(PDist(S(Perm(x, f)), p, q), PDist(S(Perm(y, f)), p, q)))
    /\ Eq(v.cov, DCov2(PDist(S([i \in Idx |-> [k \in 1..Dim |-> 3 + x[i][k]]]), p, q), m.b))
    /\ Eq(v.cov, DCov2(PDist(S([i \in Idx |-> [k \in 1..Dim |-> x[i][Dim + 1 - k]]]), p, q), m.b))
    /\ Eq(v.cov, DCov2(PDist(S([i \in Idx |-> [k \in 1..Dim |-> 0 - x[i][k]]]), p, q), m.b))
    /\ NN > 3 =>
         With([c |-> UDCov2(m.a, m.b), ux |-> UDCov2(m.a, m.a), uy |-> UDCov2(m.b, m.b)], LAMBDA u :
           /\ Eq(u.c, UDCov2Sums(m.a, m.b))
           /\ Pos(u.ux) /\ Pos(u.uy)
           /\ Pos(QSub(QMul(u.ux, u.uy), QMul(u.c, u.c))))))

(* the formulas for samples of numbers *)
LawLine == Zs =>
  With([u |-> [i \in Idx |-> x[i][1]], v |-> [i \in Idx |-> y[i][1]]], LAMBDA w :
  With([a |-> PDist(S([i \in Idx |-> <<w.u[i]>>]), 1, 1), b |-> PDist(S(y), 1, 1), s |-> LineSums(w.u, w.v)], LAMBDA m :
    /\ QEq(LineCov(m.s), DCov2(m.a, m.b))
    /\ NN > 3 => QEq(LineUCov(m.s), UDCov2(m.a, m.b))))

(* repeated observations, counted *)
RECURSIVE Repeated(_, _, _)
Repeated(w, c, i) == IF i = 0 THEN <<>> ELSE Repeated(w, c, i - 1) \o [j \in 1..c[i] |-> w[i]]
LawTally == Zs =>
  With([u |-> [i \in Idx |-> x[i][1]], v |-> [i \in Idx |-> y[i][1]], c |-> [i \in Idx |-> z[i][1]]], LAMBDA w :
    VSum(w.c) > 3 =>
    With([s |-> TallySums(w.u, w.v, w.c), t |-> LineSums(Repeated(w.u, w.c, NN), Repeated(w.v, w.c, NN))], LAMBDA m :
      /\ m.s.n = m.t.n
      /\ QEq(LineCov(m.s), LineCov(m.t)) /\ QEq(LineUCov(m.s), LineUCov(m.t))))

LawHalf == Zs => Law(1, 2)
LawOne  == Zs => Law(1, 1)
LawThreeHalves == Zs => Law(3, 2)

(* scaling by a power of two: exact for every exponent with integer unit *)
LawScale == Zs =>
  With([a |-> PDist(S(x), 1, 1), b |-> PDist(S(y), 1, 1)], LAMBDA m :
    Eq(QMul(QInt(12), DCov2(m.a, m.b)),
       DCov2(PDist(S([i \in Idx |-> [k \in 1..Dim |-> 0 - 3 * x[i][k]]]), 1, 1),
             PDist(S([i \in Idx |-> <<4 * y[i][1]>>]), 1, 1))))

(* centred matrices *)
LawCentre == Zs =>
  With(PDist(S(x), 1, 1), LAMBDA a :
    LET A == DCentered(a)  U == UCentered(a)
    IN  /\ \A i \in Idx : NEq(MRowSums(A.m)[i], 0) /\ NEq(MColSums(A.m)[i], 0)
        /\ NN > 2 => \A i \in Idx : NEq(MRowSums(U.m)[i], 0) /\ NEq(MAt(U.m, i, i), 0))

(* the projection formula of the partial distance covariance *)
LawPartial ==
  (Zs /\ NN > 3) =>
  With([a |-> UCentered(PDist(S(x), 1, 1)), b |-> UCentered(PDist(S(y), 1, 1)),
        c |-> UCentered(PDist(S(z), 1, 1))], LAMBDA m :
    LET cc == MDot(m.c.m, m.c.m)
        \* the projection on the orthogonal complement of c, times cc
        P(w) == MSub(MScale(w.m, cc), MScale(m.c.m, MDot(w.m, m.c.m)))
        pd == PDCov(m.a, m.b, m.c)
    IN  IF NSign(cc) = 0 THEN QEq(pd, UProd(m.a, m.b))
        ELSE /\ QEq(pd, <<MDot(P(m.a), P(m.b)),
                          NMul(NMul(cc, cc), NMul(NMul(m.a.d, m.b.d), NMul(NN, NN - 3))), m.a.u + m.b.u>>)
             /\ NEq(MDot(P(m.a), m.c.m), 0)
             /\ QIsZero(PDCov(m.a, m.c, m.c))
             /\ Pos(PDCov(m.a, m.a, m.c))
             /\ QEq(pd, PDCov(m.b, m.a, m.c)))

(* energy distance, x and y as two samples (first coordinate of x) *)
X1 == [i \in Idx |-> <<x[i][1]>>]
LawEnergy == Zs =>
  \A pq \in {<<1, 1>>, <<1, 2>>, <<3, 2>>} :
  With([xx |-> PDist(S(X1), pq[1], pq[2]), yy |-> PDist(S(y), pq[1], pq[2]),
        xy |-> CDist(S(X1), S(y), pq[1], pq[2]), yx |-> CDist(S(y), S(X1), pq[1], pq[2]),
        pool |-> PDist([v |-> MParse([i \in 1..(2 * NN) |-> IF i <= NN THEN <<X1[i][1]>> ELSE <<y[i - NN][1]>>]),
                        e |-> 0], pq[1], pq[2])],
       LAMBDA m :
    LET v == EnergyD("mean", "V", m.xx, m.yy, m.xy)
        u == EnergyD("mean", "U", m.xx, m.yy, m.xy)
        CountIn(w, k) == VSum([i \in Idx |-> IF w[i][1] = k THEN 1 ELSE 0])
        same == \A k \in 0..MaxV : CountIn(X1, k) = CountIn(y, k)
    IN  /\ Pos(v)
        /\ same <=> QLeq(v, Tiny)
        /\ QLeq(u, QAdd(v, Tiny))
        /\ Eq(v, EnergyD("mean", "V", m.yy, m.xx, m.yx))
        /\ Eq(QMul(<<NN, 2, 0>>, v),
              KSampleEnergy("mean", "V", m.pool, <<NN, NN>>, [i \in 1..(2 * NN) |-> i])))
=============================================================================
