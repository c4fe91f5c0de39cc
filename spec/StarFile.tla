------------------------------ MODULE StarFile ------------------------------
(* A star catalogue in memory and the file it is written to and read from.

   A star is a token t (which stands for all of its fields) with a magnitude rank m, or NaN.  The
   catalogue keeps its order; what a file holds is always ordered by magnitude, and stars of equal
   magnitude are listed here by token, because their order is not promised.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tokens, Mags, Types, MaxLen, Damages
VARIABLES cat, type, file, act
vars == <<cat, type, file, act>>
NaN == 99999
Infinity == 9999
Star(t, m) == [t |-> t, m |-> m]

Absent == [kind |-> "absent"]
Intact == file.kind = "intact"
Defined(s) == s.m # NaN
Before(a, b) == a.m < b.m \/ (a.m = b.m /\ a.t < b.t)
Sorted(s) == SortSeq(s, Before)
AtMost(s, l) == SelectSeq(s, LAMBDA x : Defined(x) /\ x.m <= l)

Init == cat = <<>> /\ type = 0 /\ file = Absent /\ act = [op |-> "init"]

Add(t, m) ==
    /\ Len(cat) < MaxLen
    /\ cat' = Append(cat, Star(t, m))
    /\ act' = [op |-> "add", t |-> t, m |-> m]
    /\ UNCHANGED <<type, file>>
SetType(x) == type' = x /\ act' = [op |-> "type", x |-> x] /\ UNCHANGED <<cat, file>>
Sort == cat' = Sorted(cat) /\ act' = [op |-> "sort"] /\ UNCHANGED <<type, file>>
Clip(l) == cat' = AtMost(cat, l) /\ act' = [op |-> "clip", l |-> l] /\ UNCHANGED <<type, file>>
Restart == cat' = <<>> /\ type' = 0 /\ act' = [op |-> "fresh"] /\ UNCHANGED file

Write ==
    /\ file' = [kind |-> "intact", type |-> type, stars |-> Sorted(SelectSeq(cat, Defined))]
    /\ act' = [op |-> "write", res |-> "ok"]
    /\ UNCHANGED <<cat, type>>
WriteFails(where) ==
    /\ act' = [op |-> "write_fails", where |-> where, res |-> "error"]
    /\ UNCHANGED <<cat, type, file>>

ReadBack(l) == IF Intact THEN [type |-> file.type, stars |-> AtMost(file.stars, l)] ELSE "error"
Read(l) == act' = [op |-> "read", l |-> l, res |-> ReadBack(l)] /\ UNCHANGED <<cat, type, file>>
Load(l) ==
    /\ act' = [op |-> "load", l |-> l, res |-> IF Intact THEN "ok" ELSE "error"]
    /\ IF Intact THEN cat' = AtMost(file.stars, l) /\ type' = file.type ELSE UNCHANGED <<cat, type>>
    /\ UNCHANGED file

(* Anything that makes the file's length or header wrong makes it unreadable. *)
Damage(how, k) ==
    /\ Intact
    /\ file' = [kind |-> "damaged"]
    /\ act' = [op |-> "damage", how |-> how, k |-> k]
    /\ UNCHANGED <<cat, type>>
Remove == file' = Absent /\ act' = [op |-> "remove"] /\ UNCHANGED <<cat, type>>
MakeFolder == file.kind = "absent" /\ act' = [op |-> "read_folder", res |-> "error"] /\ UNCHANGED <<cat, type, file>>

(* Identifiers *)
Tyc1(t) == ((t * 137) % 9537) + 1
Tyc2(t) == ((t * 911) % 12121) + 1
Tyc3(t) == (t % 3) + 1
Name(t, x) == IF x = 1 THEN <<"TYC", Tyc1(t), Tyc2(t), Tyc3(t)>> ELSE <<"number">>
Names(i) ==
    /\ act' = [op |-> "name", i |-> i, res |-> IF i < Len(cat) THEN Name(cat[i + 1].t, type) ELSE "error"]
    /\ UNCHANGED <<cat, type, file>>

Next ==
    \/ \E t \in Tokens, m \in Mags \cup {NaN} : Add(t, m)
    \/ \E x \in Types : SetType(x)
    \/ Sort \/ Restart \/ Write \/ Remove \/ MakeFolder
    \/ \E l \in Mags : Clip(l) \/ Read(l) \/ Load(l)
    \/ Read(Infinity)
    \/ \E w \in {"full", "folder", "nowhere"} : WriteFails(w)
    \/ \E d \in Damages : Damage(d[1], d[2])
    \/ \E i \in 0..MaxLen : Names(i)
Spec == Init /\ [][Next]_vars

View == <<cat, type, file>>
Obs == [stars |-> cat]
Emit == PrintT(ToJson([f |-> View, a |-> act', t |-> View', o |-> Obs']))

TypeOK ==
    /\ \A i \in 1..Len(cat) : cat[i].t \in Nat
    /\ file.kind \in {"absent", "intact", "damaged"}
(* What a file holds is complete, ordered, and has no undefined magnitude. *)
FileOrdered == Intact => \A i \in 1..Len(file.stars) :
    Defined(file.stars[i]) /\ (i < Len(file.stars) => file.stars[i].m <= file.stars[i + 1].m)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
WrittenIsComplete == [][act'.op = "write" =>
    \A i \in 1..Len(cat) : Count(file'.stars, cat[i]) = (IF Defined(cat[i]) THEN Count(cat, cat[i]) ELSE 0)]_vars
(* Reading with a limit is reading everything and then clipping. *)
LimitIsClip == Intact => \A l \in Mags : ReadBack(l).stars = AtMost(ReadBack(Infinity).stars, l)
ReadsDoNotWrite == [][act'.op \in {"read", "load", "name", "read_folder", "write_fails"} => file' = file]_vars
===============================================================================
