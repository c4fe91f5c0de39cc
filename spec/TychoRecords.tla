---------------------------- MODULE TychoRecords ----------------------------
(* The stars that a Tycho-2 file (main or supplement) stands for.

   A line is a record of its fields; a field is a number, Blank or Junk. Columns (from, to) are
   counted from zero, `to` excluded, as published. Numbers: positions in 1e-6 degree, proper motions
   in 0.1 mas/year, magnitudes in 0.001, epochs in 0.01 year after 1990.                        *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES lines, act
vars == <<lines, act>>
Blank == -1999999999
Junk == -1999999998
IsNumber(v) == v \notin {Blank, Junk}

MainCols == [t1 |-> <<0, 4>>, t2 |-> <<5, 10>>, t3 |-> <<11, 12>>, flag |-> <<13, 14>>, ra |-> <<15, 27>>, de |-> <<28, 40>>,
             pmra |-> <<41, 48>>, pmde |-> <<49, 56>>, bt |-> <<110, 116>>, vt |-> <<123, 129>>,
             ora |-> <<152, 164>>, ode |-> <<165, 177>>, era |-> <<178, 182>>, ede |-> <<183, 187>>]
SupplCols == [t1 |-> <<0, 4>>, t2 |-> <<5, 10>>, t3 |-> <<11, 12>>, flag |-> <<13, 14>>, ra |-> <<15, 27>>, de |-> <<28, 40>>,
              pmra |-> <<41, 48>>, pmde |-> <<49, 56>>, bt |-> <<83, 89>>, vt |-> <<96, 102>>]
Cols(which) == IF which = "main" THEN MainCols ELSE SupplCols

(* A line that was cut short has lost the fields that end behind the cut. *)
Field(l, which, f) == IF l.cut < Cols(which)[f][2] THEN Blank ELSE l[f]
Num(l, which, f) == IsNumber(Field(l, which, f))

Id(l) == <<l.t1, l.t2, l.t3>>
IdUsable(l, w) == \A f \in {"t1", "t2", "t3"} : Num(l, w, f)
OwnPosition(l, w) == w = "suppl" \/ (l.cut >= 14 /\ l.flag # "X")
PositionUsable(l, w) ==
    IF OwnPosition(l, w) THEN Num(l, w, "ra") /\ Num(l, w, "de")
    ELSE Num(l, w, "ora") /\ Num(l, w, "ode") /\ Num(l, w, "era") /\ Num(l, w, "ede")
MagnitudeUsable(l, w) == Num(l, w, "bt") \/ Num(l, w, "vt")
Usable(l, w) == l.data /\ IdUsable(l, w) /\ PositionUsable(l, w) /\ MagnitudeUsable(l, w)

Motion(l, w, f) == IF Num(l, w, f) THEN Field(l, w, f) ELSE 0
Mag(l, w, f) == IF Num(l, w, f) THEN Field(l, w, f) ELSE Blank
(* visual magnitude in 1e-5, and colour index B-V in 1e-5 *)
Visual(l, w) ==
    LET b == Mag(l, w, "bt") v == Mag(l, w, "vt")
    IN IF b # Blank /\ v # Blank THEN 100 * v - 9 * (b - v) ELSE IF v # Blank THEN 100 * v ELSE 100 * b
Colour(l, w) ==
    LET b == Mag(l, w, "bt") v == Mag(l, w, "vt")
    IN IF b # Blank /\ v # Blank THEN 85 * (b - v) ELSE 30000

StarOf(l, w) ==
    LET own == OwnPosition(l, w) IN
    [id |-> Id(l), ra |-> IF own THEN l.ra ELSE l.ora, de |-> IF own THEN l.de ELSE l.ode,
     pmra |-> Motion(l, w, "pmra"), pmde |-> Motion(l, w, "pmde"),
     yra |-> IF w = "suppl" THEN 875 ELSE IF own THEN 0 ELSE 1000 - l.era,   \* 0.01 years to J2000
     yde |-> IF w = "suppl" THEN 875 ELSE IF own THEN 0 ELSE 1000 - l.ede,
     bt |-> Mag(l, w, "bt"), vt |-> Mag(l, w, "vt"), v |-> Visual(l, w), bv |-> Colour(l, w)]

RECURSIVE Stars(_, _)
Stars(ls, w) == IF ls = <<>> THEN <<>>
                ELSE (IF Usable(Head(ls), w) THEN <<StarOf(Head(ls), w)>> ELSE <<>>) \o Stars(Tail(ls), w)

Init == lines = <<>> /\ act = [op |-> "init"]
Line(l) == lines' = Append(lines, l) /\ act' = [op |-> "line", l |-> l]
Read(w, ending, last) ==
    /\ act' = [op |-> "read", which |-> w, cols |-> Cols(w), ending |-> ending, last |-> last, res |-> Stars(lines, w)]
    /\ UNCHANGED lines
Missing(w) == act' = [op |-> "missing", which |-> w, res |-> "error"] /\ UNCHANGED lines
Obs == <<>>

(* Each line on its own: splitting a file anywhere splits its stars, and order is kept. *)
OnItsOwn == \A w \in {"main", "suppl"} : \A i \in 0..Len(lines) :
    Stars(lines, w) = Stars(SubSeq(lines, 1, i), w) \o Stars(SubSeq(lines, i + 1, Len(lines)), w)
NoMoreThanLines == \A w \in {"main", "suppl"} : Len(Stars(lines, w)) <= Len(lines)
===============================================================================
