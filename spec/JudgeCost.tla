----------------------------- MODULE JudgeCost -----------------------------
(***************************************************************************)
(* Resources (C19).  For each call of a fast algorithm with n observations *)
(* (in each of e.rows rows): the peak of the memory allocated during the   *)
(* call, in KiB, and the processor time, in ms, where they were measured.  *)
(* The allowances are several times what the algorithms take and, for the  *)
(* sizes observed, a small part of what an n x n matrix or n^2 steps need. *)
(***************************************************************************)
EXTENDS Judge, Cost

MemoryAllowed(n, rows) == 64 + rows * ((n * Levels(n)) \div 5) * 2      \* some 400 bytes for each n log n
(* 0.5 microseconds per step of compiled code, 10 of interpreted code *)
TimeAllowed(n, rows, compiled) ==
    2000 + rows * (IF compiled THEN Steps(n) \div 2000 ELSE Steps(n) \div 100)

JudgeCost(e) ==
    TLCEval([i \in 1..Len(e.calls) |->
        LET c == e.calls[i]
            what == c.op \o "(" \o c.cfg \o ") of " \o ToString(e.n) \o " observations"
        IN  IF c.k = "err" THEN Bad(what \o " raised " \o c.t)
            ELSE IF "kib" \in DOMAIN c /\ c.kib > MemoryAllowed(e.n, e.rows)
                 THEN Bad(what \o " allocated " \o ToString(c.kib) \o " KiB")
            ELSE IF "ms" \in DOMAIN c /\ c.ms > TimeAllowed(e.n, e.rows, c.compiled)
                 THEN Bad(what \o " took " \o ToString(c.ms) \o " ms")
            ELSE "ok"])
=============================================================================
