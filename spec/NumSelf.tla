------------------------------ MODULE NumSelf ------------------------------
(***************************************************************************)
(* The overrides of java/Num.java against the definitions of Num.tla.      *)
(* NumDef is a copy of Num.tla (made by run.py at run time) that TLC       *)
(* evaluates as written, because the overrides are bound to module Num.    *)
(* Only small numbers: where the definitions stay within 32 bits.  The     *)
(* laws at the end hold for numbers of any size.                           *)
(***************************************************************************)
EXTENDS Num, TLC

D == INSTANCE NumDef

CONSTANT MaxV        \* entries of the matrices

VARIABLES A, B, k

Entries == (0 - MaxV)..MaxV
Mats(n, m) == [1..n -> [1..m -> Entries]]
Init == /\ k \in 0..2
        /\ \/ A \in Mats(2, 2) /\ B \in Mats(2, 2)
           \/ A \in Mats(1, 3) /\ B \in Mats(1, 3)
           \/ A \in Mats(3, 1) /\ B \in Mats(3, 1)
Next == UNCHANGED <<A, B, k>>

Plain(M) == [i \in 1..MRows(M) |-> [j \in 1..MCols(M) |-> MAt(M, i, j)]]
pA == MParse(A)
pB == MParse(B)

Matrices ==
    /\ MRows(pA) = D!MRows(A) /\ MCols(pA) = D!MCols(A)
    /\ Plain(pA) = A
    /\ MEq(pA, pB) = D!MEq(A, B)
    /\ Plain(MScale(pA, k)) = D!MScale(A, k)
    /\ Plain(MAdd(pA, pB)) = D!MAdd(A, B)
    /\ Plain(MSub(pA, pB)) = D!MSub(A, B)
    /\ Plain(MAbs(pA)) = D!MAbs(A)
    /\ Plain(MTrans(pA)) = D!MTrans(A)
    /\ Plain(MMul(pA, MTrans(pB))) = D!MMul(A, D!MTrans(B))
    /\ MRowSums(pA) = D!MRowSums(A)
    /\ MColSums(pA) = D!MColSums(A)
    /\ MTotal(pA) = D!MTotal(A)
    /\ MMaxAbs(pA) = D!MMaxAbs(A)
    /\ MDot(pA, pB) = D!MDot(A, B)
    /\ \A t \in 0..3 : MWithin(pA, pB, k, t) = D!MWithin(A, B, k, t)
    /\ MRows(pA) = MCols(pA) =>
         LET Q == <<A[1] \o B[1], A[2] \o B[2], B[1] \o A[1], <<k, 1, 0, 2>>>>
             T == <<A[1] \o <<k>>, B[1] \o <<1>>, A[2] \o <<2>>>>
         IN  /\ MDet(pA) = D!MDet(A) /\ Plain(MAdj(pA)) = D!MAdj(A)
             /\ MDet(MParse(T)) = D!MDet(T) /\ Plain(MAdj(MParse(T))) = D!MAdj(T)
             /\ MDet(MParse(Q)) = D!MDet(Q)
    /\ MDet(MParse(<<<<k>>>>)) = k /\ Plain(MAdj(MParse(<<<<k>>>>))) = <<<<1>>>>
    /\ MRow(pA, 1) = D!MRow(A, 1) /\ MCol(pB, 1) = D!MCol(B, 1)
    /\ VDot(A[1], B[1]) = D!VDot(A[1], B[1]) /\ VSum(A[1]) = D!VSum(A[1])
    /\ VAbsDot(A[1], B[1]) = D!VAbsDot(A[1], B[1]) /\ VAbsRows(A[1]) = D!VAbsRows(A[1])
    /\ VSort(A[1]) = D!VSort(A[1])
    /\ Plain(MSqDist(pA, pB)) = D!MSqDist(A, B)
    /\ Plain(MZeroDiag(pA)) = D!MZeroDiag(A)
    /\ Plain(MShift(pA, k, MRowSums(pA), MColSums(pB), k)) = D!MShift(A, k, D!MRowSums(A), D!MColSums(B), k)
    /\ Plain(MPowRoot(MSqDist(pA, pB), 1, k + 1, 1)) = D!MPowRoot(D!MSqDist(A, B), 1, k + 1, 1)
    /\ Plain(MPowDyad(MSqDist(pA, pB), k, 2, 2)) = D!MPowDyad(D!MSqDist(A, B), k, 2, 2)
    /\ Plain(MTake(pA, <<1>>, [j \in 1..MCols(pA) |-> MCols(pA) + 1 - j]))
         = D!MTake(A, <<1>>, [j \in 1..D!MCols(A) |-> D!MCols(A) + 1 - j])
    /\ Plain(MMake(2, 3, LAMBDA i, j : i * 10 + j + k)) = D!MMake(2, 3, LAMBDA i, j : i * 10 + j + k)

Numbers ==
    LET a == A[1][1]
        b == B[1][1]
        c == NAbs(MDot(pA, pB))
    IN  /\ NAdd(a, b) = D!NAdd(a, b) /\ NSub(a, b) = D!NSub(a, b) /\ NMul(a, b) = D!NMul(a, b)
        /\ NNeg(a) = D!NNeg(a) /\ NAbs(a) = D!NAbs(a) /\ NSign(a) = D!NSign(a)
        /\ NLeq(a, b) = D!NLeq(a, b) /\ NLt(a, b) = D!NLt(a, b) /\ NEq(a, b) = D!NEq(a, b)
        /\ NMax(a, b) = D!NMax(a, b) /\ NPow(a, k) = D!NPow(a, k)
        /\ NDiv(a, k + 1) = D!NDiv(a, k + 1) /\ NShl(a, k) = D!NShl(a, k)
        /\ NBits(a) = D!NBits(a) /\ NRoot(c, k + 1) = D!NRoot(c, k + 1)
        /\ NGcd(a, b) = D!NGcd(a, b)
        /\ NParse(a) = a /\ NParse(ToString(a)) = a

(* numbers beyond 32 bits *)
Huge ==
    LET h == NMul(NAdd(NShl(A[1][1], 70 + k), B[1][1]), NParse("123456789012345678901234567890"))
        g == NAdd(NShl(NAbs(MDot(pA, pB)), 90), 7)
        r == NRoot(g, 3)
    IN  /\ NEq(NSub(NMul(NAdd(h, g), NSub(h, g)), NSub(NMul(h, h), NMul(g, g))), 0)
        /\ NLeq(NPow(r, 3), g) /\ NLt(g, NPow(NAdd(r, 1), 3))
        /\ NLeq(NMul(NDiv(h, g), g), h) /\ NLt(h, NMul(NAdd(NDiv(h, g), 1), g))
        /\ NLt(NAbs(g), NShl(1, NBits(g))) /\ NLeq(NShl(1, NBits(g) - 1), NAbs(g))
        /\ NEq(MDot(MScale(pA, g), pB), NMul(g, MDot(pA, pB)))
        /\ NEq(MTotal(MScale(pA, h)), NMul(h, MTotal(pA)))
        /\ MRows(pA) = MCols(pA) =>
             LET Q == MParse(<<A[1] \o B[1], A[2] \o B[2], <<h, 1>> \o A[1], <<k, g, h, 2>>>>)
             IN  MEq(MMul(Q, MAdj(Q)), MMake(4, 4, LAMBDA i, j : IF i = j THEN MDet(Q) ELSE 0))
        /\ NEq(NDiv(h, NGcd(h, g)), NSub(NDiv(h, NGcd(h, g)), 0))
=============================================================================
