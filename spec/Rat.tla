-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Rational numbers <<n, d, e>>, denoting (n / d) * 2^e with d > 0.        *)
(* A float logged by the harness is the pair <<m, e>> = m * 2^e (exact).   *)
(***************************************************************************)
EXTENDS Num

Q(n, d)   == <<n, d, 0>>
QInt(n)   == <<n, 1, 0>>
QZero     == <<0, 1, 0>>
QOne      == <<1, 1, 0>>
QFloat(f) == <<NParse(f[1]), 1, f[2]>>

LOCAL Min(a, b) == IF a < b THEN a ELSE b

QMul(a, b) == <<NMul(a[1], b[1]), NMul(a[2], b[2]), a[3] + b[3]>>
QInv(a)    == IF NSign(a[1]) > 0 THEN <<a[2], a[1], 0 - a[3]>>
              ELSE <<NNeg(a[2]), NNeg(a[1]), 0 - a[3]>>
QDiv(a, b) == QMul(a, QInv(b))
QNeg(a)    == <<NNeg(a[1]), a[2], a[3]>>
QAbs(a)    == <<NAbs(a[1]), a[2], a[3]>>
QSign(a)   == NSign(a[1])
QAdd(a, b) == LET e == Min(a[3], b[3])
              IN  <<NAdd(NMul(NShl(a[1], a[3] - e), b[2]),
                         NMul(NShl(b[1], b[3] - e), a[2])),
                    NMul(a[2], b[2]), e>>
QSub(a, b) == QAdd(a, QNeg(b))
QLeq(a, b) == LET e == Min(a[3], b[3])
              IN  NLeq(NMul(NShl(a[1], a[3] - e), b[2]),
                       NMul(NShl(b[1], b[3] - e), a[2]))
QLt(a, b)  == ~ QLeq(b, a)
QEq(a, b)  == QLeq(a, b) /\ QLeq(b, a)
QMax(a, b) == IF QLeq(a, b) THEN b ELSE a
QMin(a, b) == IF QLeq(a, b) THEN a ELSE b
QIsZero(a) == NSign(a[1]) = 0
(* a * 2^k, for any integer k *)
QShl(a, k) == <<a[1], a[2], a[3] + k>>

(* the nearest-below dyadic number with (about) 256 significant bits *)
QRnd(a) ==
    IF QIsZero(a) THEN QZero
    ELSE LET k == 256 + NBits(a[2]) - NBits(a[1])
         IN  IF k >= 0 THEN <<NDiv(NShl(a[1], k), a[2]), 1, a[3] - k>>
             ELSE <<NDiv(a[1], NShl(a[2], 0 - k)), 1, a[3] - k>>

(* square root of a >= 0, with (about) 200 significant bits *)
QSqrt(a) ==
    IF QIsZero(a) THEN QZero
    ELSE LET odd == a[3] % 2 = 1
             n   == NMul(IF odd THEN NShl(a[1], 1) ELSE a[1], a[2])
             e   == (IF odd THEN a[3] - 1 ELSE a[3]) \div 2
             s   == IF NBits(n) >= 400 THEN 0 ELSE 400 - NBits(n)
             s2  == IF s % 2 = 1 THEN s + 1 ELSE s
         IN  <<NRoot(NShl(n, s2), 2), a[2], e - s2 \div 2>>

(* |a - b| <= tol *)
QNear(a, b, tol) == QLeq(QAbs(QSub(a, b)), tol)

RECURSIVE QSumSeq(_)
QSumSeq(s) == IF s = <<>> THEN QZero ELSE QAdd(Head(s), QSumSeq(Tail(s)))
=============================================================================
