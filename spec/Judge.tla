------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* What the results of dcor must be: for every kind of observation, an     *)
(* operator that yields the sequence of verdicts of the recorded calls.    *)
(* A verdict is "ok", "skip: ..." (the clause does not apply to this       *)
(* input, e.g. ill-conditioned) or "bad: ...".  Verdicts are total.        *)
(*                                                                         *)
(* An outcome is a record with field k:                                    *)
(*   "val"  a finite number v = <<m, e>>                                   *)
(*   "nan"  not a finite number                                            *)
(*   "stats" a Stats object, v = its four numbers                          *)
(*   "err"  an exception of type t                                         *)
(*   "crash" the interpreter died or hung                                  *)
(***************************************************************************)
EXTENDS EStat

Opt(r, f, default) == IF f \in DOMAIN r THEN r[f] ELSE default

Bad(what) == "bad: " \o what
Skip(why) == "skip: " \o why
Verdict(ok, what) == IF ok THEN "ok" ELSE Bad(what)

(* the result is an array of the namespace of the inputs *)
NsOk(c) == ~ ("ns" \in DOMAIN c) \/ ~ ("ns" \in DOMAIN c.out) \/ c.ns = c.out.ns
WithNs(c, v) == IF v = "ok" /\ ~ NsOk(c) THEN Bad(c.op \o " is of namespace " \o c.out.ns) ELSE v

Sample(s) == [v |-> MParse(s.v), e |-> s.e]

(* e.tb: number of bits to which the results must be right, relative to the
   product of the largest distances *)
Tol(e, ra, rb) == QShl(QMul(ra, rb), 0 - e.tb)

(***************************************************************************)
(* Generic checks of one number                                            *)
(***************************************************************************)
NumIs(out, q, tol, what) ==
    CASE out.k = "val" -> Verdict(QNear(QFloat(out.v), q, tol), what)
      [] out.k = "err" -> Bad(what \o " raised " \o out.t)
      [] OTHER         -> Bad(what \o " is " \o out.k)

(* out is the square root of max(q, 0) *)
RootIs(out, q, tol, what) ==
    CASE out.k = "val" ->
           LET r == QFloat(out.v)
           IN  Verdict(QSign(r) >= 0 /\ QNear(QMul(r, r), IF QSign(q) < 0 THEN QZero ELSE q, tol), what)
      [] out.k = "err" -> Bad(what \o " raised " \o out.t)
      [] OTHER         -> Bad(what \o " is " \o out.k)

(***************************************************************************)
(* Dependence measures of a pair of samples                                *)
(***************************************************************************)
PairCtx(e) ==
    LET x  == Sample(e.x)
        y  == Sample(e.y)
        a  == PDist(x, e.p, e.q)
        b  == PDist(y, e.p, e.q)
        n  == Size(a)
        A  == DCentered(a)
        B  == DCentered(b)
        ra == Radius(a)
        rb == Radius(b)
        U  == IF n > 3 THEN UCentered(a) ELSE A
        V  == IF n > 3 THEN UCentered(b) ELSE B
    IN  [n |-> n, ra |-> ra, rb |-> rb,
         cov |-> MeanProd(A, B), vx |-> MeanProd(A, A), vy |-> MeanProd(B, B),
         ucov |-> IF n > 3 THEN UProd(U, V) ELSE QZero,
         uvx |-> IF n > 3 THEN UProd(U, U) ELSE QZero,
         uvy |-> IF n > 3 THEN UProd(V, V) ELSE QZero,
         tol |-> Tol(e, ra, rb), tx |-> Tol(e, ra, ra), ty |-> Tol(e, rb, rb)]

(* r is the correlation cov / sqrt(vx vy) *)
CorrelIs(r, cov, vx, vy, g, what) ==
    IF QIsZero(g.ra) \/ QIsZero(g.rb)              \* a constant sample
    THEN Verdict(QIsZero(r), what \o " of a constant sample is not 0")
    ELSE IF QIsZero(vx) \/ QIsZero(vy)
            \/ QLeq(vx, QShl(g.tx, Opt(g, "margin", 12))) \/ QLeq(vy, QShl(g.ty, Opt(g, "margin", 12)))
    THEN Skip("ill-conditioned")
    ELSE LET dd  == QSqrt(QMul(vx, vy))
             rel == QAdd(QDiv(g.tx, vx), QDiv(g.ty, vy))
         IN  Verdict(QNear(QMul(r, dd), cov, QShl(QAdd(g.tol, QMul(QAbs(cov), rel)), 1)), what)

CorrelOutIs(out, root, cov, vx, vy, g, what) ==
    CASE out.k = "val" ->
           LET r == QFloat(out.v)
           IN  IF ~ root THEN CorrelIs(r, cov, vx, vy, g, what)
               ELSE IF QSign(r) < 0 THEN Bad(what \o " is negative")
               ELSE CorrelIs(QMul(r, r), IF QSign(cov) < 0 THEN QZero ELSE cov, vx, vy, g, what)
      [] out.k = "err" -> Bad(what \o " raised " \o out.t)
      [] OTHER         -> Bad(what \o " is " \o out.k)

Val(f) == [k |-> "val", v |-> f]

First(vs) ==   \* the first verdict that is bad, else the first skip, else ok
    LET bad  == SelectSeq(vs, LAMBDA v : SubSeq(v, 1, 1) = "b")
        skip == SelectSeq(vs, LAMBDA v : v # "ok")
    IN  IF bad # <<>> THEN bad[1] ELSE IF skip # <<>> THEN skip[1] ELSE "ok"

StatsIs(out, root, u, g, what) ==
    CASE out.k = "stats" ->
           LET cov == IF u THEN g.ucov ELSE g.cov
               vx  == IF u THEN g.uvx ELSE g.vx
               vy  == IF u THEN g.uvy ELSE g.vy
               Is(o, q, t, w) == IF root THEN RootIs(o, q, t, w) ELSE NumIs(o, q, t, w)
           IN  First(<<Is(Val(out.v[1]), cov, g.tol, what \o ".covariance_xy"),
                       CorrelOutIs(Val(out.v[2]), root, cov, vx, vy, g, what \o ".correlation_xy"),
                       Is(Val(out.v[3]), vx, g.tx, what \o ".variance_x"),
                       Is(Val(out.v[4]), vy, g.ty, what \o ".variance_y")>>)
      [] out.k = "err" -> Bad(what \o " raised " \o out.t)
      [] OTHER         -> Bad(what \o " is " \o out.k)

PairCall(e, g, c) ==
    LET what == c.op \o "(" \o Opt(c, "cfg", "") \o ")"
    IN  IF SubSeq(c.op, 1, 1) = "u" /\ g.n <= 3 THEN Skip("n <= 3")
        ELSE CASE c.op = "dcov_sqr"   -> NumIs(c.out, g.cov, g.tol, what)
          [] c.op = "dcov"       -> RootIs(c.out, g.cov, g.tol, what)
          [] c.op = "udcov_sqr"  -> NumIs(c.out, g.ucov, g.tol, what)
          [] c.op = "dcor_sqr"   -> CorrelOutIs(c.out, FALSE, g.cov, g.vx, g.vy, g, what)
          [] c.op = "dcor"       -> CorrelOutIs(c.out, TRUE, g.cov, g.vx, g.vy, g, what)
          [] c.op = "udcor_sqr"  -> CorrelOutIs(c.out, FALSE, g.ucov, g.uvx, g.uvy, g, what)
          [] c.op = "stats_sqr"  -> StatsIs(c.out, FALSE, FALSE, g, what)
          [] c.op = "stats"      -> StatsIs(c.out, TRUE, FALSE, g, what)
          [] c.op = "ustats_sqr" -> StatsIs(c.out, FALSE, TRUE, g, what)

(* many observations of a number: integers e.x.v * 2^e.x.e; with e.c, the
   k-th one appears e.c[k] times (in whatever order) *)
LineWidth(u) == LET t == VSort(u) IN NSub(t[Len(t)], t[1])
LineCtx(e) ==
    LET Sums(u, v) == IF "c" \in DOMAIN e THEN TallySums(u, v, e.c) ELSE LineSums(u, v)
    IN
    With([u |-> e.x.v, v |-> e.y.v, n |-> IF "c" \in DOMAIN e THEN VSum(e.c) ELSE Len(e.x.v)], LAMBDA w :
    With([xy |-> Sums(w.u, w.v), xx |-> Sums(w.u, w.u), yy |-> Sums(w.v, w.v),
          ra |-> <<LineWidth(w.u), 1, e.x.e>>, rb |-> <<LineWidth(w.v), 1, e.y.e>>], LAMBDA s :
       [n |-> w.n, ra |-> s.ra, rb |-> s.rb,
        cov |-> QShl(LineCov(s.xy), e.x.e + e.y.e), vx |-> QShl(LineCov(s.xx), 2 * e.x.e),
        vy |-> QShl(LineCov(s.yy), 2 * e.y.e),
        ucov |-> QShl(LineUCov(s.xy), e.x.e + e.y.e), uvx |-> QShl(LineUCov(s.xx), 2 * e.x.e),
        uvy |-> QShl(LineUCov(s.yy), 2 * e.y.e),
        tol |-> Tol(e, s.ra, s.rb), tx |-> Tol(e, s.ra, s.ra), ty |-> Tol(e, s.rb, s.rb)]))
Ctx(e) == IF Opt(e, "line", FALSE) THEN LineCtx(e) ELSE PairCtx(e)

JudgePair(e) ==
    With(Ctx(e), LAMBDA g :
            TLCEval([i \in 1..Len(e.calls) |-> WithNs(e.calls[i], PairCall(e, g, e.calls[i]))]))

(***************************************************************************)
(* Coherence between the results of different functions, and bounds        *)
(***************************************************************************)
Has(e, op) == \E i \in 1..Len(e.calls) : e.calls[i].op = op
Out(e, op) == e.calls[CHOOSE i \in 1..Len(e.calls) : e.calls[i].op = op].out

(* r and s are the same number up to 2^-40 relative, or both negligible *)
SameNum(r, s, small) ==
    QNear(r, s, QMax(small, QShl(QMax(QAbs(r), QAbs(s)), -40)))

FieldsAre(e, st, names, tols) ==
    LET o == Out(e, st)
    IN  [i \in 1..4 |->
           IF names[i] = "" \/ ~ Has(e, names[i]) THEN "ok"
           ELSE LET f == Out(e, names[i])
                IN  IF o.k # "stats" \/ f.k # "val" THEN "ok"   \* judged elsewhere
                    ELSE Verdict(SameNum(QFloat(o.v[i]), QFloat(f.v), tols[i]),
                                 st \o " differs from " \o names[i])]

InUnit(o, lo, what) ==
    IF o.k # "val" THEN "ok"
    ELSE LET r == QFloat(o.v)
         IN  Verdict(QLeq(lo, r) /\ QLeq(r, QAdd(QOne, QShl(QOne, -20))), what \o " out of bounds")

Eps20 == QShl(QOne, -20)

Coherent(e, g) ==
    LET small == QShl(QOne, -20)
        wellx == QLt(QShl(g.tx, 12), g.vx)
        welly == QLt(QShl(g.ty, 12), g.vy)
        uwell == g.n > 3 /\ QLt(QShl(g.tx, 12), g.uvx) /\ QLt(QShl(g.ty, 12), g.uvy)
    IN  FieldsAre(e, "stats_sqr", <<"dcov_sqr", "dcor_sqr", "", "">>, <<g.tol, small, g.tx, g.ty>>)
        \o FieldsAre(e, "stats", <<"dcov", "dcor", "", "">>, <<QSqrt(g.tol), small, g.tx, g.ty>>)
        \o (IF Has(e, "ustats_sqr")
             THEN FieldsAre(e, "ustats_sqr", <<"udcov_sqr", "udcor_sqr", "", "">>, <<g.tol, small, g.tx, g.ty>>)
             ELSE <<>>)
        \o (IF Has(e, "dcor") THEN <<InUnit(Out(e, "dcor"), QZero, "dcor"),
                                     InUnit(Out(e, "dcor_sqr"),
                                            IF e.p <= 2 * e.q THEN QNeg(Eps20) ELSE QNeg(QAdd(QOne, Eps20)),
                                            "dcor_sqr")>> ELSE <<>>)
        \o (IF uwell /\ Has(e, "udcor_sqr")
             THEN <<InUnit(Out(e, "udcor_sqr"), QNeg(QAdd(QOne, Eps20)), "udcor_sqr")>> ELSE <<>>)
        \o (IF ~ Opt(e, "same", FALSE) \/ ~ wellx \/ ~ welly THEN <<>>
             ELSE <<NumIs(Out(e, "dcor"), QOne, Eps20, "dcor of a sample and a multiple of it")>>
                  \o (IF uwell /\ Has(e, "udcor_sqr")
                       THEN <<NumIs(Out(e, "udcor_sqr"), QOne, Eps20, "udcor_sqr of a sample and a multiple of it")>>
                       ELSE <<>>))

JudgeCoherent(e) ==
    With(Ctx(e), LAMBDA g :
            TLCEval([i \in 1..Len(e.calls) |-> PairCall(e, g, e.calls[i])]
                    \o Coherent(e, g)))
=============================================================================
