------------------------------ MODULE MediumNest ------------------------------
(* What a path is inside: bodies are crossed one boundary at a time, in any     *)
(* order; the current medium is that of the most recently entered body that has *)
(* not been left. Two paths exist so that a copy (the path as it splits) can be *)
(* told from its original.                                                      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Bodies,    \* 1..n; medium of body b: see MediumOf
          Cap        \* nesting depth supported

VARIABLES in, act    \* in[k]: bodies the path k is inside, oldest first
vars == <<in>>

\* body 1 has no medium, bodies 2 and 3 are filled with the same one
MediumOf(b) == IF b = 1 THEN 0 ELSE IF b <= 3 THEN 2 ELSE b

Member(s, b) == \E i \in 1..Len(s) : s[i] = b
Without(s, b) == SelectSeq(s, LAMBDA x : x # b)

Crossed(s, b) ==
    IF b = 0 \/ MediumOf(b) = 0 THEN s
    ELSE IF Member(s, b) THEN Without(s, b)
    ELSE IF Len(s) < Cap THEN Append(s, b)
    ELSE s

Top(s) == IF s = <<>> THEN 0 ELSE MediumOf(s[Len(s)])

Init == in = <<<<>>, <<>>>> /\ act = [op |-> "init"]

Cross(k, b) == /\ in' = [in EXCEPT ![k] = Crossed(in[k], b)]
               /\ act' = [op |-> "cross", k |-> k, b |-> b]
\* path k becomes a copy of the other one
Split(k) == /\ in' = [in EXCEPT ![k] = in[3 - k]]
            /\ act' = [op |-> "split", k |-> k]

Next == \/ \E k \in 1..2, b \in Bodies \cup {0} : Cross(k, b)
        \/ \E k \in 1..2 : Split(k)

-------------------------------------------------------------------------------
NoRepeats == \A k \in 1..2 : \A i, j \in 1..Len(in[k]) : in[k][i] = in[k][j] => i = j
Bounded == \A k \in 1..2 : Len(in[k]) <= Cap
\* crossing the same boundary twice restores the medium, and the nesting of everything else
TwiceIsNothing ==
    \A k \in 1..2, b \in Bodies \cup {0} :
        LET t == Crossed(Crossed(in[k], b), b)
        IN  /\ Without(t, b) = Without(in[k], b)
            /\ ~Member(in[k], b) => t = in[k]
\* leaving a body removes that body only
LeaveRemovesOne ==
    \A k \in 1..2, b \in Bodies : Member(in[k], b) =>
        /\ Len(Crossed(in[k], b)) = Len(in[k]) - 1
        /\ ~Member(Crossed(in[k], b), b)
\* everything entered in any order and left in any order ends in vacuum
Vacuum == \A k \in 1..2 : in[k] = <<>> <=> Top(in[k]) = 0

View == vars
St == vars
Obs == [k \in 1..2 |-> [top |-> Top(in[k]), empty |-> in[k] = <<>>, size |-> Len(in[k])]]
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
