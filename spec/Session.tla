------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Sessions of calls, in several threads, over shared arguments (C12).     *)
(*                                                                         *)
(* A call takes its arguments into a workspace (Begin) and later produces  *)
(* a result from it (End).  The user may overwrite an argument (Write) or  *)
(* a returned array (Scribble) while no call is running.  The result of a  *)
(* call is the function of what its arguments contained when it began, it  *)
(* stays so, and only the user changes the arguments.                      *)
(*                                                                         *)
(* Flaw selects the negative controls:                                     *)
(*   "shared"  the workspace is shared by the threads                      *)
(*   "clobber" the results live in a buffer that the next call reuses      *)
(*   "memo"    results are remembered by the identity of the arguments     *)
(*   "handout" ... by their contents, and the remembered array is returned *)
(*   "inplace" a call leaves its first argument changed                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fns, Args, Threads, Length, Flaw

VARIABLES content,   \* contents of the arguments: a version number
          written,   \* how many times the user wrote each argument
          busy,      \* call being executed by each thread: <<>> or <<call>>
          ws,        \* workspaces
          memo,      \* remembered results: set of [key, res] (negative controls)
          results,   \* sequence of [call, value, mine]: the value seen now
          log        \* what happened

vars == <<content, written, busy, ws, memo, results, log>>

Value(f, u, v) == <<f, u, v>>      \* the result is determined by these
Slot(t) == IF Flaw = "shared" THEN CHOOSE s \in Threads : TRUE ELSE t
Idle == \A t \in Threads : busy[t] = <<>>
Event(ev, t, f, a, b, k) == [ev |-> ev, t |-> t, fn |-> f, a |-> a, b |-> b, k |-> k]

Init == /\ content = [a \in Args |-> 0]
        /\ written = [a \in Args |-> 0]
        /\ busy = [t \in Threads |-> <<>>]
        /\ ws = [t \in Threads |-> <<>>]
        /\ memo = {} /\ results = <<>> /\ log = <<>>

Begin(t) == \E f \in Fns, a, b \in Args :
    /\ busy[t] = <<>>
    /\ LET n == Cardinality({s \in Threads : busy[s] # <<>>})
       IN  Len(log) + n + 2 <= Length
    /\ busy' = [busy EXCEPT ![t] = <<[fn |-> f, a |-> a, b |-> b, u |-> <<a, content[a]>>, v |-> <<b, content[b]>>]>>]
    /\ ws' = [ws EXCEPT ![Slot(t)] = <<<<a, content[a]>>, <<b, content[b]>>>>]
    /\ log' = Append(log, Event("begin", t, f, a, b, 0))
    /\ UNCHANGED <<content, written, memo, results>>

Key(c) == IF Flaw = "memo" THEN <<c.fn, c.a, c.b>> ELSE <<c.fn, c.u, c.v>>
Known(c) == {m \in memo : m.key = Key(c)}

End(t) ==
    /\ busy[t] # <<>>
    /\ LET c == busy[t][1]
           w == ws[Slot(t)]
           remembers == Flaw \in {"memo", "handout"}
           hit == remembers /\ Known(c) # {}
           val == IF hit THEN (CHOOSE m \in Known(c) : TRUE).val ELSE Value(c.fn, w[1], w[2])
           new == [call |-> c, value |-> val, mine |-> FALSE]
           old == IF Flaw = "clobber" THEN [i \in 1..Len(results) |-> [results[i] EXCEPT !.value = val]] ELSE results
       IN  /\ results' = Append(old, new)
           /\ memo' = IF remembers /\ ~ hit THEN memo \cup {[key |-> Key(c), val |-> val]} ELSE memo
           /\ content' = IF Flaw = "inplace" THEN [content EXCEPT ![c.a] = @ + 1] ELSE content
    /\ busy' = [busy EXCEPT ![t] = <<>>]
    /\ log' = Append(log, Event("end", t, "", "", "", 0))
    /\ UNCHANGED <<written, ws>>

(* the user overwrites an argument *)
Write(a) ==
    /\ Idle /\ Len(log) < Length
    /\ content' = [content EXCEPT ![a] = @ + 1]
    /\ written' = [written EXCEPT ![a] = @ + 1]
    /\ log' = Append(log, Event("write", 0, "", a, "", 0))
    /\ UNCHANGED <<busy, ws, memo, results>>

(* the user overwrites a returned array *)
Scribble(i) ==
    /\ Idle /\ Len(log) < Length /\ ~ results[i].mine
    /\ results' = [results EXCEPT ![i].mine = TRUE, ![i].value = <<"scribbled">>]
    /\ memo' = IF Flaw = "handout"
               THEN {IF m.key = Key(results[i].call) THEN [m EXCEPT !.val = <<"scribbled">>] ELSE m : m \in memo}
               ELSE memo
    /\ log' = Append(log, Event("scribble", 0, "", "", "", i))
    /\ UNCHANGED <<content, written, busy, ws>>

Next == \/ \E t \in Threads : Begin(t) \/ End(t)
        \/ \E a \in Args : Write(a)
        \/ \E i \in 1..Len(results) : Scribble(i)
Spec == Init /\ [][Next]_vars

Pure == /\ content = written
        /\ \A i \in 1..Len(results) :
             results[i].mine \/ results[i].value = Value(results[i].call.fn, results[i].call.u, results[i].call.v)

Emit == (Len(log) = Length /\ Idle) => PrintT(<<"GEN", ToJson(log)>>)
=============================================================================
