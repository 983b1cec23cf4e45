------------------------------ MODULE PermTest ------------------------------
(* Permutation tests that share a random state, with parallel workers.      *)
(*                                                                          *)
(* The random state is a position in an infinite sequence of permutations:  *)
(* the d-th draw gives permutation number d, whose statistic is Stat[d]     *)
(* (an arbitrary function, so that every outcome is explored).  The parent  *)
(* draws the permutations in order, at most Window tasks ahead of those     *)
(* that finished; the workers finish in any order.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* resamples of each test
          Tests,    \* consecutive tests that share the random state
          Window,   \* tasks in flight (pre-dispatch of joblib: 2 * n_jobs)
          Values,   \* possible values of a statistic
          Cores,    \* tasks that a worker can hold: only the Cores oldest pending tasks can finish next
          Lazy      \* FALSE: workers draw when they run (a wrong design, as a negative control)

VARIABLES stat,      \* statistic of each permutation of the sequence
          drawn,     \* position of the random state
          test,      \* index of the test being executed
          sent,      \* tasks dispatched in this test
          perm,      \* permutation number of each dispatched task of this test
          pending,   \* dispatched tasks not yet finished
          finished,  \* tasks in the order in which they finished
          results,   \* result of each finished task
          pvalues    \* count of extreme results of each finished test
vars == <<stat, drawn, test, sent, perm, pending, finished, results, pvalues>>

Total == N * Tests
Count(S, P(_)) == Cardinality({i \in S : P(i)})

(* What the tests must report: test t uses draws (t-1)N+1 .. tN, in order.  *)
Observed == 1
Expected(t) == Count((t - 1) * N + 1 .. t * N, LAMBDA d : stat[d] > Observed)

Init == /\ stat \in [1..Total -> Values]
        /\ drawn = 0 /\ test = 1 /\ sent = 0 /\ pending = {} /\ finished = <<>>
        /\ perm = [i \in 1..N |-> 0] /\ results = [i \in 1..N |-> 0] /\ pvalues = <<>>

Dispatch ==
    /\ test <= Tests /\ sent < N /\ Cardinality(pending) < Window
    /\ sent' = sent + 1
    /\ pending' = pending \union {sent + 1}
    /\ IF Lazy THEN UNCHANGED <<drawn, perm>>
       ELSE /\ drawn' = drawn + 1
            /\ perm' = [perm EXCEPT ![sent + 1] = drawn + 1]
    /\ UNCHANGED <<stat, test, finished, results, pvalues>>

Finish(i) ==
    /\ i \in pending
    /\ Cardinality({j \in pending : j < i}) < Cores
    /\ pending' = pending \ {i}
    /\ finished' = Append(finished, i)
    /\ LET d == IF Lazy THEN drawn + 1 ELSE perm[i]
       IN  /\ drawn' = IF Lazy THEN drawn + 1 ELSE drawn
           /\ perm' = [perm EXCEPT ![i] = d]
           /\ results' = [results EXCEPT ![i] = stat[d]]
    /\ UNCHANGED <<stat, test, sent, pvalues>>

Collect ==
    /\ test <= Tests /\ sent = N /\ pending = {}
    /\ pvalues' = Append(pvalues, Count(1..N, LAMBDA i : results[i] > Observed))
    /\ test' = test + 1 /\ sent' = 0 /\ finished' = <<>>
    /\ perm' = [i \in 1..N |-> 0] /\ results' = [i \in 1..N |-> 0]
    /\ UNCHANGED <<stat, drawn, pending>>

Next == Dispatch \/ (\E i \in pending : Finish(i)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ drawn \in 0..Total /\ sent \in 0..N /\ pending \subseteq 1..sent
          /\ Len(finished) + Cardinality(pending) = sent
(* The result of a task is that of its own draw, whoever finished before.   *)
OwnDraw == \A i \in 1..N : (\E k \in 1..Len(finished) : finished[k] = i)
              => results[i] = stat[(test - 1) * N + i]
(* The random state is advanced by one permutation per dispatched task.     *)
Advance == drawn = (Len(pvalues) * N) + (IF test > Tests THEN 0 ELSE sent)
(* Every test reports the count of its own draws: reproducible.             *)
Reproducible == \A t \in 1..Len(pvalues) : pvalues[t] = Expected(t)
Ends == <>(test > Tests)

(* Completion schedules, for replay into the real code.                     *)
Emit == (test = 1 /\ sent = N /\ pending = {})
           => PrintT(<<"GEN", ToJson([n |-> N, window |-> Window, order |-> finished])>>)
EmitStop == test = 1
=============================================================================
