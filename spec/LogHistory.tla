------------------------------ MODULE LogHistory ------------------------------
(* The recent-message history of the logger: a bounded queue that keeps the    *)
(* newest accepted messages, survives changes of its capacity, and is shown    *)
(* by a dump.                                                                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Cap0,      \* capacity at the start
          Caps,      \* capacities that may be requested (0 counts as 1)
          Sevs,      \* severities 0 Debug .. 3 Error
          Bursts,    \* how many messages one step logs
          K          \* messages carry a number modulo K (> any capacity)

VARIABLES cap, hist, lvl, k, act
vars == <<cap, hist, lvl, k>>

AtLeast1(c) == IF c > 1 THEN c ELSE 1
Newest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Init == /\ cap = Cap0 /\ hist = <<>> /\ lvl = 1 /\ k = 0
        /\ act = [op |-> "init"]

\* n messages of one severity; below the threshold they leave no trace
Log(s, n) ==
    LET new == [i \in 1..n |-> [s |-> s, k |-> (k + i - 1) % K]]
    IN  /\ IF s >= lvl
           THEN hist' = Newest(hist \o new, cap)
           ELSE UNCHANGED hist
        /\ k' = IF s >= lvl THEN (k + n) % K ELSE k
        /\ UNCHANGED <<cap, lvl>>
        /\ act' = [op |-> "log", s |-> s, n |-> n, k |-> k, m |-> K]

SetCap(c) ==
    /\ cap' = AtLeast1(c)
    /\ hist' = Newest(hist, cap')
    /\ UNCHANGED <<lvl, k>>
    /\ act' = [op |-> "cap", c |-> c, res |-> cap']

SetLevel(l) ==
    /\ lvl' = l
    /\ UNCHANGED <<cap, hist, k>>
    /\ act' = [op |-> "level", l |-> l, res |-> l]

\* where the dump went: the file asked for, the working directory when that
\* cannot be opened, the log directory when no file is named, or nowhere
Dump(where) ==
    /\ UNCHANGED vars
    /\ act' = [op |-> "dump", to |-> where,
               res |-> IF where = "nowhere" THEN <<>> ELSE <<where, hist>>]

Next == \/ \E s \in Sevs, n \in Bursts : Log(s, n)
        \/ \E c \in Caps : SetCap(c)
        \/ \E l \in Sevs : SetLevel(l)
        \/ \E w \in {"file", "fallback", "logdir", "nowhere"} : Dump(w)

---------------------------------------------------------------------------
\* The property on the specification
TypeOK == cap >= 1 /\ Len(hist) <= cap
\* messages are numbered as they are accepted, so the history being exactly the newest
\* accepted messages in order means its numbers run up to the last one handed out
Window == \A i \in 1..Len(hist) : hist[i].k = (k + K - 1 - (Len(hist) - i)) % K
Shrinks == [][Len(hist') < Len(hist) => act'.op = "cap"]_<<vars, act>>
TailOnly == [][act'.op = "cap" => IsSuffix(hist', hist)]_<<vars, act>>

View == vars
Obs == [cap |-> cap, lvl |-> lvl, hist |-> hist]
St == <<cap, hist, lvl, k>>
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
=============================================================================
