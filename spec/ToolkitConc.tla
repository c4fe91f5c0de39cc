----------------------------- MODULE ToolkitConc -----------------------------
(* Threads inside the wrapper of a toolkit whose error state is one for all.   *)
(* Each call is: clear a pending error, run (refused while one is pending,     *)
(* else fails or not), look, fetch the message, clear. With Locked the steps   *)
(* of a call are not interleaved with those of another.                        *)
EXTENDS Integers, Sequences
CONSTANTS Threads, PerThread, Locked
VARIABLES pc, lock, pend, left, bad, answer, ran
vars == <<pc, lock, pend, left, bad, answer, ran>>
Init ==
    /\ pc = [t \in Threads |-> "idle"] /\ lock = 0 /\ pend = 0 /\ left = [t \in Threads |-> PerThread]
    /\ bad = [t \in Threads |-> FALSE] /\ answer = [t \in Threads |-> "none"] /\ ran = [t \in Threads |-> FALSE]
Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
Start(t) == /\ Go(t, "idle", "clear") /\ left[t] > 0
            /\ IF Locked THEN lock = 0 /\ lock' = t ELSE UNCHANGED lock
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ answer' = [answer EXCEPT ![t] = "none"]
            /\ \E b \in BOOLEAN : bad' = [bad EXCEPT ![t] = b]
            /\ ran' = [ran EXCEPT ![t] = FALSE] /\ UNCHANGED pend
Clear(t) == Go(t, "clear", "run") /\ pend' = 0 /\ UNCHANGED <<lock, left, bad, answer, ran>>
Run(t) == /\ Go(t, "run", "look")
          /\ IF pend # 0 THEN UNCHANGED <<pend, ran>>
             ELSE pend' = (IF bad[t] THEN t ELSE 0) /\ ran' = [ran EXCEPT ![t] = TRUE]
          /\ UNCHANGED <<lock, left, bad, answer>>
Look(t) == /\ Go(t, "look", IF pend = 0 THEN "done" ELSE "fetch")
           /\ answer' = [answer EXCEPT ![t] = IF pend = 0 THEN "ok" ELSE "error"]
           /\ UNCHANGED <<lock, pend, left, bad, ran>>
Fetch(t) == Go(t, "fetch", "drop") /\ answer' = [answer EXCEPT ![t] = IF pend = t THEN "own error" ELSE "other"] /\ UNCHANGED <<lock, pend, left, bad, ran>>
Drop(t) == Go(t, "drop", "done") /\ pend' = 0 /\ UNCHANGED <<lock, left, bad, answer, ran>>
Done(t) == /\ Go(t, "done", "idle") /\ (IF Locked THEN lock' = 0 ELSE UNCHANGED lock) /\ UNCHANGED <<pend, left, bad, answer, ran>>
Next == \E t \in Threads : Start(t) \/ Clear(t) \/ Run(t) \/ Look(t) \/ Fetch(t) \/ Drop(t) \/ Done(t)
\* every call gets its own answer, and a call that succeeded has run
OwnAnswer == \A t \in Threads : pc[t] = "done" => ran[t] /\ answer[t] = IF bad[t] THEN "own error" ELSE "ok"
=============================================================================
