------------------------------ MODULE Student ------------------------------
(***************************************************************************)
(* The distribution function of the Student t with an integer number of    *)
(* degrees of freedom, from its closed form (Abramowitz and Stegun,        *)
(* 26.7.3 and 26.7.4), in fixed point arithmetic with F binary digits.     *)
(***************************************************************************)
EXTENDS EStat, SequencesExt

F == 160
One == NShl(1, F)
FMul(a, b) == NDiv(NMul(a, b), One)
FDiv(a, b) == NDiv(NShl(a, F), b)
FSqrt(a)   == NRoot(NShl(a, F), 2)
Fix(q)     == LET r == QShl(q, F)         \* a rational, q >= 0
              IN  IF r[3] >= 0 THEN NDiv(NShl(r[1], r[3]), r[2])
                  ELSE NDiv(r[1], NShl(r[2], 0 - r[3]))

(* sum of (-1)^k x^(2k+1) / (2k+1), for small x *)
RECURSIVE AtanSeries(_, _, _)
AtanSeries(pow, x2, k) ==
    IF k > 40 \/ NEq(pow, 0) THEN 0
    ELSE With(AtanSeries(FMul(pow, x2), x2, k + 1), LAMBDA rest :
              NSub(NDiv(pow, 2 * k + 1), rest))
SmallAtan(x) == With(FMul(x, x), LAMBDA x2 : AtanSeries(x, x2, 0))

Pi == With(NSub(NMul(16, SmallAtan(NDiv(One, 5))), NMul(4, SmallAtan(NDiv(One, 239)))), LAMBDA v : v)

Halve(x) == FDiv(x, NAdd(One, FSqrt(NAdd(One, FMul(x, x)))))
Atan01(x) == NMul(8, SmallAtan(Halve(Halve(Halve(x)))))     \* 0 <= x <= 1
Atan(x) == IF NLeq(x, One) THEN Atan01(x)
           ELSE NSub(NDiv(Pi, 2), Atan01(FDiv(One, x)))

(* 1 + r_1 c + r_1 r_2 c^2 + ..., m terms; r_k = (2k - 1 + s) / (2k + s) *)
Terms(m, s, c) ==
    FoldLeft(LAMBDA acc, k : <<NDiv(NMul(FMul(acc[1], c), 2 * k - 1 + s), 2 * k + s), NAdd(acc[2], acc[1])>>,
             <<One, 0>>, [k \in 1..m |-> k])[2]

(* P(|T| <= t), for t >= 0 (a rational), in units of 2^-F *)
Central(t, nu) ==
    With([c2 |-> Fix(QDiv(QInt(nu), QAdd(QInt(nu), QMul(t, t)))),
          s2 |-> Fix(QDiv(QMul(t, t), QAdd(QInt(nu), QMul(t, t)))),
          tan |-> FSqrt(Fix(QDiv(QMul(t, t), QInt(nu))))], LAMBDA v :
      IF nu % 2 = 0
      THEN FMul(FSqrt(v.s2), Terms(nu \div 2, 0, v.c2))
      ELSE LET theta == Atan(v.tan)
               sc == FMul(FSqrt(v.s2), FSqrt(v.c2))
               sum == IF nu = 1 THEN 0 ELSE FMul(sc, Terms((nu - 1) \div 2, 1, v.c2))
           IN  FDiv(NMul(2, NAdd(theta, sum)), Pi))

(* P(T > t) *)
UpperTail(t, nu) ==
    With(Central(QAbs(t), nu), LAMBDA a :
      IF QSign(t) >= 0 THEN <<NSub(One, a), 2, 0 - F>> ELSE <<NAdd(One, a), 2, 0 - F>>)
=============================================================================
