--------------------------- MODULE JudgeDispatch ---------------------------
(***************************************************************************)
(* Requests and rowwise computations (C14, C11)                            *)
(***************************************************************************)
EXTENDS JudgeEnergy, Dispatch

Warned(o) == \E i \in 1..Len(o.w) : o.w[i] = "exponent"

(* requests for the same pair of samples *)
RequestCall(e, g, c) ==
    LET r == c.req
        ex == Serves(r.meth, r.mode, r.kind, r.p = r.q)
        what == c.op \o "(" \o c.cfg \o ")"
    IN  IF ex = "any" THEN Skip("not specified")
        ELSE IF ex = "raise" THEN Verdict(c.out.k = "err", what \o " returned a value")
        ELSE IF c.out.k = "err" THEN Bad(what \o " raised " \o c.out.t)
        ELSE First(<<WithNs(c, PairCall(e, g, c)),
                     Verdict(Warned(c.out) <=> Warns(r.p, r.q),
                             what \o (IF Warned(c.out) THEN " warned about the exponent"
                                      ELSE " did not warn about the exponent"))>>)

JudgeRequests(e) ==
    IF Opt(e, "unequal", FALSE)
    THEN [i \in 1..Len(e.calls) |->
            Verdict(e.calls[i].out.k = "err", e.calls[i].op \o "(" \o e.calls[i].cfg \o ") returned a value")]
    ELSE With(PairCtx(e), LAMBDA g :
           TLCEval([i \in 1..Len(e.calls) |-> RequestCall(e, g, e.calls[i])]))

(* calls that must raise, or must warn (or not) about the exponent *)
JudgeRaise(e) ==
    [i \in 1..Len(e.calls) |->
       LET c == e.calls[i]
       IN  CASE c.expect = "raise"  -> Verdict(c.out.k = "err", c.what \o " returned a value")
             [] c.expect = "warn"   -> Verdict(c.out.k # "err" /\ Warned(c.out), c.what \o " did not warn about the exponent")
             [] c.expect = "silent" -> Verdict(c.out.k # "err" /\ ~ Warned(c.out), c.what \o " warned about the exponent")
             [] c.expect = "value"  -> Verdict(c.out.k # "err", c.what \o " raised")]

(* rowwise: e.rows, the pairs of samples; every element is judged as the
   call of the function with that row *)
RowVerdict(e, gs, c) ==
    LET what == "rowwise(" \o c.op \o ", " \o c.cfg \o ")"
        r == c.req
        ex == IF "expect" \in DOMAIN c THEN c.expect
              ELSE RowServes(r.rmode, r.fn, r.meth, r.mode, r.kind, r.p = r.q)
    IN  IF ex = "any" THEN Skip("not specified")
        ELSE IF ex = "raise" THEN Verdict(c.out.k = "err", what \o " returned a value")
        ELSE IF c.out.k = "err" THEN Bad(what \o " raised " \o c.out.t)
        ELSE IF c.out.k # "vec" THEN Bad(what \o " is " \o c.out.k)
        ELSE IF Len(c.out.v) # Len(e.rows) THEN Bad(what \o " has another length")
        ELSE First([i \in 1..Len(e.rows) |->
               IF c.op = "user"
               THEN LET ka == Opt(c, "ka", 1)       \* its options
                        kb == Opt(c, "kb", 0)
                    IN  NumIs(Val(c.out.v[i]), QAdd(QMul(QInt(ka), gs[i].dot.q), QInt(kb)),
                              QAdd(QMul(QInt(ka * ka), gs[i].dot.tol), QShl(QInt(kb * kb), -33)),
                              what \o " row " \o ToString(i))
               ELSE PairCall(e, gs[i], [op |-> c.op, cfg |-> c.cfg \o ", row " \o ToString(i),
                                        out |-> Val(c.out.v[i])])])

(* the function of the user in the scenarios: the sum of x_i y_i (first
   coordinates), to 33 bits relative to the sizes of the terms *)
UserDot(x, y) ==
    LET u == MCol(x.v, 1)
        w == MCol(y.v, 1)
    IN  [q |-> <<VDot(u, w), 1, x.e + y.e>>,
         tol |-> QShl(<<VDot([i \in 1..Len(u) |-> NAbs(u[i])], [i \in 1..Len(w) |-> NAbs(w[i])]), 1, x.e + y.e>>, -33)]

JudgeRow(e) ==
    With([i \in 1..Len(e.rows) |->
            With([x |-> e.rows[i].x, y |-> e.rows[i].y, p |-> e.p, q |-> e.q, tb |-> e.tb], LAMBDA pe :
            IF Opt(e, "line", FALSE)
            THEN LineCtx(IF "c" \in DOMAIN e.rows[i] THEN [c |-> e.rows[i].c] @@ pe ELSE pe)
            ELSE With(PairCtx(pe), LAMBDA g :
              [dot |-> UserDot(Sample(pe.x), Sample(pe.y))] @@ g))], LAMBDA gs :
      TLCEval([i \in 1..Len(e.calls) |-> RowVerdict(e, gs, e.calls[i])]))
=============================================================================
