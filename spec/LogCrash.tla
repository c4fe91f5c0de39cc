------------------------------- MODULE LogCrash -------------------------------
(* Fatal causes and the crash report.  A run logs, opens and closes traced     *)
(* scopes, switches crash handling, and finally dies of some cause; while the  *)
(* report is made the sink may fail again.                                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Caps, Bursts, MaxMsgs, MaxScopes

VARIABLES en, scopes, n, cap, hist, alive, act
vars == <<en, scopes, n, cap, hist, alive>>

Signals == [segv |-> 11, segv_raise |-> 11, abort |-> 6, abort_raise |-> 6, fpe |-> 8,
            fpe_raise |-> 8, ill_raise |-> 4, bus_raise |-> 7]
Exceptions == {"throw_runtime", "throw_range", "throw_own", "throw_int", "noexcept", "terminate"}
Causes == DOMAIN Signals \cup Exceptions
\* what the sink does when it is handed the lines of the report
Seconds == {"none", "sink_throw", "sink_segv", "sink_abort", "sink_terminate"}

SignalOf(c) == IF c \in DOMAIN Signals THEN Signals[c] ELSE 6
Newest(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))

Init == /\ en = TRUE /\ scopes = 0 /\ n = 0 /\ cap \in Caps /\ hist = <<>> /\ alive = TRUE
        /\ act = [op |-> "init"]

Log(b) == /\ alive /\ n + b <= MaxMsgs
          /\ n' = n + b
          /\ hist' = Newest(hist \o [i \in 1..b |-> n + i], cap)
          /\ UNCHANGED <<en, scopes, cap, alive>>
          /\ act' = [op |-> "log", from |-> n + 1, n |-> b]

Enable(on) == /\ alive /\ en' = on
              /\ UNCHANGED <<scopes, n, cap, hist, alive>>
              /\ act' = [op |-> "enable", on |-> on]

Scope(up) == /\ alive
             /\ IF up THEN scopes < MaxScopes ELSE scopes > 0
             /\ scopes' = IF up THEN scopes + 1 ELSE scopes - 1
             /\ UNCHANGED <<en, n, cap, hist, alive>>
             /\ act' = [op |-> "scope", up |-> up]

Resize(c) == /\ alive /\ cap' = c /\ hist' = Newest(hist, c)
             /\ UNCHANGED <<en, scopes, n, alive>>
             /\ act' = [op |-> "cap", c |-> c]

\* The end.  Without a second failure the number of reports is determined; with one it is at
\* most one, and the process dies of the first or the second cause.
Die(c, second, th) ==
    /\ alive /\ alive' = FALSE
    /\ UNCHANGED <<en, scopes, n, cap, hist>>
    /\ LET calm == second \in {"none", "sink_throw"} \/ ~en
           s2 == IF second = "sink_segv" THEN 11 ELSE 6
       IN act' = [op |-> "die", cause |-> c, second |-> second, thread |-> th,
                  res |-> [signals |-> IF calm THEN <<SignalOf(c)>> ELSE <<SignalOf(c), s2>>,
                           min |-> IF en /\ calm THEN 1 ELSE 0,
                           max |-> IF en THEN 1 ELSE 0,
                           hist |-> hist, cap |-> cap,
                           scopes |-> IF th THEN 0 ELSE scopes,
                           what |-> c]]

Next == \/ \E b \in Bursts : Log(b)
        \/ \E on \in BOOLEAN : Enable(on)
        \/ \E up \in BOOLEAN : Scope(up)
        \/ \E c \in Caps : Resize(c)
        \/ \E c \in Causes, s \in Seconds, th \in BOOLEAN : Die(c, s, th)

---------------------------------------------------------------------------
AtMostOnce == act.op = "die" => act.res.max <= 1 /\ act.res.min <= act.res.max
SilentWhenOff == act.op = "die" => (~en => act.res.max = 0)
EndsByCause == act.op = "die" => act.res.signals[1] = SignalOf(act.cause)
Complete == act.op = "die" => IsSuffix(act.res.hist, [i \in 1..n |-> i])

View == vars
St == vars
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> <<>>]))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> <<>>]))
=============================================================================
