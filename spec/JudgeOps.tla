------------------------------ MODULE JudgeOps ------------------------------
(***************************************************************************)
(* Centring, products and projections, as operations over named buffers    *)
(* (C10).  The observation is a history: the contents of every buffer at   *)
(* the start (e.init) and after every step.  The specification of a step   *)
(* is the value that it must produce, where it must go, and that nothing   *)
(* else changes.                                                           *)
(*   step: op, src (buffers), out (buffer or ""), over (source of the      *)
(*   projection), ret = outcome, same = (returned object is the out        *)
(*   buffer), shares = (shares memory with a buffer), after = contents     *)
(***************************************************************************)
EXTENDS Judge

Buf(b) == [m |-> MParse(b.v), u |-> b.e, d |-> 1]

(* |out - q / d| <= tol for all the entries; q integers in units 2^u *)
MatIs(o, q, tol, what) ==
    IF o.k # "mat" THEN Bad(what \o " is " \o o.k)
    ELSE LET e0 == IF o.e < q.u THEN o.e ELSE q.u
             om == MParse(o.v)
         IN  IF MRows(om) # MRows(q.m) \/ MCols(om) # MCols(q.m) THEN Bad(what \o " has another shape")
             ELSE Verdict(QLeq(<<MMaxAbs(MSub(MScale(om, NMul(q.d, NShl(1, o.e - e0))),
                                              MScale(q.m, NShl(1, q.u - e0)))), q.d, e0>>, tol), what)

Zeros(a) == [m |-> MScale(a.m, 0), u |-> 0, d |-> 1]
(* <a, b> / <a, a> a *)
Proj(a, b) ==
    LET aa == MDot(a.m, a.m)
    IN  IF NSign(aa) = 0 THEN Zeros(a)
        ELSE [m |-> MScale(a.m, MDot(a.m, b.m)), u |-> b.u, d |-> aa]
CProj(a, b) ==
    LET aa == MDot(a.m, a.m)
    IN  IF NSign(aa) = 0 THEN b
        ELSE [m |-> MSub(MScale(b.m, aa), MScale(a.m, MDot(a.m, b.m))), u |-> b.u, d |-> aa]

Rad(a) == <<MMaxAbs(a.m), 1, a.u>>

(* centring rounding errors only (such as a centred constant) gives anything *)
Symmetric(a) == NLeq(NShl(MMaxAbs(MSub(a.m, MTrans(a.m))), 40), MMaxAbs(a.m))

ValueOk(e, pre, st, what) ==
    LET a == Buf(pre[st.src[1]])
        n == MRows(a.m)
        w == [tb |-> Opt(st, "tb", e.tb)]     \* fewer bits in single precision
    IN  IF st.op \in {"double_centered", "u_centered"} /\ ~ Symmetric(a) THEN Skip("not symmetric")
        ELSE CASE st.op = "double_centered" -> MatIs(st.ret, DCentered(a), QShl(Rad(a), 0 - w.tb), what)
          [] st.op = "u_centered" ->
               IF n < 3 THEN Skip("n < 3")
               ELSE First(<<MatIs(st.ret, UCentered(a), QShl(Rad(a), 0 - w.tb), what),
                            Verdict(st.ret.k = "mat" => \A k \in 1..Len(st.ret.v) : st.ret.v[k][k] = 0,
                                    what \o ": the diagonal is not 0")>>)
          [] st.op = "mean_product" ->
               LET b == Buf(pre[st.src[2]])
               IN  NumIs(st.ret, MeanProd(a, b), Tol(w, Rad(a), Rad(b)), what)
          [] st.op = "u_product" ->
               LET b == Buf(pre[st.src[2]])
               IN  IF n < 4 THEN Skip("n < 4")
                   ELSE NumIs(st.ret, UProd(a, b), QShl(Tol(w, Rad(a), Rad(b)), 2), what)
          [] st.op \in {"u_projection", "u_complementary_projection"} ->
               LET c  == Buf(st.over)
                   cc == <<MDot(c.m, c.m), n * n, 2 * c.u>>
                   k  == QAbs(<<MDot(a.m, c.m), n * n, a.u + c.u>>)
                   \* error of <a,c>/<c,c> times the entries of c
                   t  == IF QIsZero(cc) THEN QZero
                         ELSE QMul(Rad(c), QDiv(QAdd(Tol(w, Rad(a), Rad(c)),
                                                     QDiv(QMul(k, Tol(w, Rad(c), Rad(c))), cc)), cc))
               IN  IF n < 4 THEN Skip("n < 4")
                   ELSE MatIs(st.ret, IF st.op = "u_projection" THEN Proj(c, a) ELSE CProj(c, a),
                              QShl(QAdd(QShl(Rad(a), 0 - w.tb), t), 3), what)

(* the same contents (numbers are recorded as integers or as strings: parse them) *)
SameBuf(a, b) == /\ a.e = b.e
                 /\ Len(a.v) = Len(b.v)
                 /\ MEq(MParse(a.v), MParse(b.v))
Unchanged(pre, post, names) == \A i \in 1..Len(names) : SameBuf(pre[names[i]], post[names[i]])
Without(names, b) == SelectSeq(names, LAMBDA x : x # b)

StepOk(e, i) ==
    LET st   == e.steps[i]
        pre  == IF i = 1 THEN e.init ELSE e.steps[i - 1].after
        what == st.op \o "(" \o st.cfg \o "), step " \o ToString(i)
    IN  IF st.ret.k = "err" THEN Bad(what \o " raised " \o st.ret.t)
        ELSE First(<<
          ValueOk(e, pre, st, what),
          IF st.out = ""
          THEN First(<<Verdict(Unchanged(pre, st.after, e.names), what \o " changed an input"),
                       Verdict(~ st.shares, what \o " returned memory of an input or of another result"),
                       Verdict(st.fl \/ st.op \notin {"double_centered", "u_centered"}, what \o " is not floating point")>>)
          ELSE First(<<Verdict(Unchanged(pre, st.after, Without(e.names, st.out)), what \o " changed an input"),
                       Verdict(st.same, what \o " did not return out"),
                       \* what was returned is what is stored
                       Verdict(st.ret.k = "mat" => SameBuf(st.ret, st.after[st.out]),
                               what \o " did not store the result in out")>>)>>)

JudgeOps(e) == TLCEval([i \in 1..Len(e.steps) |-> StepOk(e, i)])
=============================================================================
