------------------------------- MODULE LogRoute -------------------------------
(* Where a message goes: the threshold, the custom sink (which may fail), and  *)
(* the three console channels with their hierarchy.                            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Sinks      \* sink numbers; even ones throw after receiving a message

VARIABLES lvl, sink, con, act
vars == <<lvl, sink, con>>

\* con: how verbose the console is. 0 nothing below errors, 1 warnings, 2 + info, 3 + debug.
\* Debug implies info implies warnings, so one number says it all.
Init == lvl = 1 /\ sink = 0 /\ con = 1 /\ act = [op |-> "init"]

Shown(s) == s = 3 \/ con >= 3 - s

\* what a log call leads to
Outcome(via, s) ==
    LET ok == s >= lvl
        console == via # "direct" /\ (ok \/ via = "throw") /\ Shown(s)
    IN  [recorded  |-> ok,
         sink      |-> IF ok THEN sink ELSE 0,
         evaluated |-> ok \/ via \in {"direct", "throw"},
         out       |-> IF console /\ s <= 1 THEN <<s>> ELSE <<>>,
         err       |-> IF console /\ s >= 2 THEN <<s>> ELSE <<>>,
         threw     |-> via = "throw"]

Log(via, s) ==
    /\ via = "throw" => s = 3
    /\ act' = [op |-> "log", via |-> via, s |-> s, res |-> Outcome(via, s)]
    /\ UNCHANGED vars

SetLevel(l) == /\ lvl' = l /\ UNCHANGED <<sink, con>>
               /\ act' = [op |-> "level", l |-> l]

SetSink(x) == /\ sink' = x /\ UNCHANGED <<lvl, con>>
              /\ act' = [op |-> "sink", x |-> x]

\* channel 3 debug, 2 info, 1 warnings; on raises the verbosity to it, off lowers below it
Console(ch, on) ==
    /\ con' = IF on THEN (IF con < ch THEN ch ELSE con)
              ELSE (IF con >= ch THEN ch - 1 ELSE con)
    /\ UNCHANGED <<lvl, sink>>
    /\ act' = [op |-> "console", ch |-> ch, on |-> on]

Next == \/ \E s \in 0..3, via \in {"direct", "macro", "throw"} : Log(via, s)
        \/ \E l \in 0..3 : SetLevel(l)
        \/ \E x \in Sinks : SetSink(x)
        \/ \E ch \in 1..3, on \in BOOLEAN : Console(ch, on)

---------------------------------------------------------------------------
IsLog == act'.op = "log"
\* the property, on the specification
ThresholdDecides == [][IsLog => (act'.res.recorded <=> act'.s >= lvl)]_<<vars, act>>
OnlyTheSinkInPlace == [][IsLog => act'.res.sink \in {0, sink}]_<<vars, act>>
Hierarchy == [][IsLog /\ act'.res.out = <<0>> => con = 3]_<<vars, act>>
ErrorsAlwaysShown == [][IsLog /\ act'.via # "direct" /\ act'.s = 3 => act'.res.err = <<3>>]_<<vars, act>>

View == vars
Obs == [lvl |-> lvl, console |-> <<con >= 3, con >= 2, con >= 1>>]
St == vars
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
=============================================================================
