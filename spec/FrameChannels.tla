---------------------------- MODULE FrameChannels ----------------------------
(* The outputs of a frame buffer. Each channel exists or not and holds a        *)
(* picture; what a picture holds is abstracted to how it came about: 0 empty,   *)
(* n > 0 the n-th picture written into it (everywhere, or in one corner pixel). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chan,     \* names of the channels
          MaxW      \* how many distinct writings

VARIABLES on, val, corner, act
vars == <<on, val, corner>>

\* the sensor's response is computed from the received power, so asking for the one asks for the other
Needs(c) == IF c = "response" THEN {"power"} \cap Chan ELSE {}

Init == /\ on = [c \in Chan |-> FALSE]
        /\ val = [c \in Chan |-> 0]
        /\ corner = [c \in Chan |-> 0]
        /\ act = [op |-> "init"]

Enable(c) ==
    LET cs == {c} \cup Needs(c)
        new == {d \in cs : ~on[d]}
    IN  /\ on' = [d \in Chan |-> on[d] \/ d \in cs]
        /\ val' = [d \in Chan |-> IF d \in new THEN 0 ELSE val[d]]
        /\ corner' = [d \in Chan |-> IF d \in new THEN 0 ELSE corner[d]]
        /\ act' = [op |-> "enable", c |-> c]

Disable(c) ==
    /\ on' = [on EXCEPT ![c] = FALSE]
    /\ val' = [val EXCEPT ![c] = 0]
    /\ corner' = [corner EXCEPT ![c] = 0]
    /\ act' = [op |-> "disable", c |-> c]

\* writing needs a channel that is there
Fill(c, w) ==
    /\ on[c]
    /\ val' = [val EXCEPT ![c] = w]
    /\ corner' = [corner EXCEPT ![c] = w]
    /\ act' = [op |-> "fill", c |-> c, w |-> w]
    /\ UNCHANGED on

Corner(c, w) ==
    /\ on[c]
    /\ corner' = [corner EXCEPT ![c] = w]
    /\ act' = [op |-> "corner", c |-> c, w |-> w]
    /\ UNCHANGED <<on, val>>

Clear ==
    /\ val' = [c \in Chan |-> 0]
    /\ corner' = [c \in Chan |-> 0]
    /\ act' = [op |-> "clear"]
    /\ UNCHANGED on

Next == \/ \E c \in Chan : Enable(c) \/ Disable(c)
        \/ \E c \in Chan, w \in 1..MaxW : Fill(c, w) \/ Corner(c, w)
        \/ Clear

-------------------------------------------------------------------------------
Touched(a) == IF "c" \notin DOMAIN a THEN Chan
              ELSE {a.c} \cup (IF a.op = "enable" THEN Needs(a.c) ELSE {})
Independent == [][\A c \in Chan \ Touched(act') :
                    on'[c] = on[c] /\ val'[c] = val[c] /\ corner'[c] = corner[c]]_<<vars, act>>
NothingInDisabled == \A c \in Chan : ~on[c] => val[c] = 0 /\ corner[c] = 0
ClearedTogether == act.op = "clear" => \A c \in Chan : val[c] = 0 /\ corner[c] = 0

View == vars
St == vars
\* what can be seen: which channels exist, with the right size, and their contents
Obs == [c \in Chan |-> <<on[c], val[c], corner[c]>>]
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
