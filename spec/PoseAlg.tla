------------------------------- MODULE PoseAlg --------------------------------
(* The algebra of poses: one pose built up by composing, on either side, with others, inverting and
   undoing; and what it does to points, directions and motions.                                    *)
EXTENDS Pose, FiniteSets, TLC, Json
VARIABLES a, act
Gens == <<
  [p |-> <<1, -2, 3>>, m |-> Turn(1, 1), s |-> Ones, va |-> V0, vb |-> V0, k |-> V0],
  [p |-> <<0, 4, -1>>, m |-> Turn(3, 1), s |-> Ones, va |-> <<1, 0, -2>>, vb |-> V0, k |-> <<0, 0, 1>>],
  [p |-> V0, m |-> MM(Turn(2, 1), Turn(1, 3)), s |-> Ones, va |-> <<0, 3, 0>>, vb |-> <<1, 0, 1>>, k |-> <<-1, 0, 2>>],
  [p |-> <<-3, 1, 2>>, m |-> Turn(2, 2), s |-> <<2, 2, 2>>, va |-> V0, vb |-> V0, k |-> <<0, 1, 0>>],
  [p |-> <<5, 0, 0>>, m |-> Id, s |-> <<3, 3, 3>>, va |-> <<1, 1, 1>>, vb |-> <<0, -2, 0>>, k |-> V0],
  [p |-> <<2, 2, -5>>, m |-> MM(Turn(3, 3), Turn(1, 1)), s |-> Ones, va |-> <<-1, 2, 0>>, vb |-> <<0, 0, 3>>, k |-> <<1, 1, -1>>],
  [p |-> <<0, 0, 7>>, m |-> MM(Turn(1, 2), Turn(2, 1)), s |-> <<2, 2, 2>>, va |-> <<0, 0, 1>>, vb |-> V0, k |-> <<0, 2, 0>>],
  Here,
  [p |-> <<1, 2, 3>>, m |-> Turn(3, 3), s |-> <<1, 2, 5>>, va |-> <<1, 0, 0>>, vb |-> V0, k |-> <<0, 1, 0>>]>>   \* only on the right
Uniform == 1..8
All == 1..9
Even(s) == s[1] = s[2] /\ s[2] = s[3]
Inv(x) == LET mt == Tr(x.m)                                   \* scale 1 only: numbers are whole here
          IN [p |-> MulS(-1, Ap(mt, x.p)), m |-> mt, s |-> Ones, va |-> MulS(-1, Ap(mt, x.va)),
              vb |-> Ap(mt, SubV(Cross(x.k, x.p), x.vb)), k |-> MulS(-1, Ap(mt, x.k))]
Points == <<<<1, 0, 0>>, <<0, -2, 5>>, <<3, 3, -1>>>>

(* ---- the laws *)
ASSUME \A i, j \in Uniform : \A l \in All : Comp(Comp(Gens[i], Gens[j]), Gens[l]) = Comp(Gens[i], Comp(Gens[j], Gens[l]))
ASSUME \A i \in All : Comp(Here, Gens[i]) = Gens[i] /\ Comp(Gens[i], Here) = Gens[i]
ASSUME \A i \in Uniform : \A j \in All : \A n \in 1..3 :
          LET c == Comp(Gens[i], Gens[j])
          IN /\ Point(c, Points[n]) = Point(Gens[i], Point(Gens[j], Points[n]))
             /\ Direction(c, Points[n]) = Direction(Gens[i], Direction(Gens[j], Points[n]))
ASSUME \A i \in {g \in Uniform : Gens[g].s = Ones} : Comp(Inv(Gens[i]), Gens[i]) = Here /\ Comp(Gens[i], Inv(Gens[i])) = Here

Small(x) == \A c \in 1..3 : /\ x.p[c] \in -100000..100000 /\ x.va[c] \in -100000..100000 /\ x.vb[c] \in -100000..100000
                            /\ x.k[c] \in -1000..1000 /\ x.s[c] \in 1..1000
Done(op, g, x) == a' = x /\ act' = [op |-> op, g |-> g, with |-> IF g = 0 THEN Here ELSE Gens[g]]
Init == a = Here /\ act = [op |-> "init"]
Fresh(g) == Done("fresh", g, Gens[g])
Right(g) == Even(a.s) /\ Small(a) /\ Done("right", g, Comp(a, Gens[g]))
Left(g) == Small(a) /\ Done("left", g, Comp(Gens[g], a))
Invert == a.s = Ones /\ Done("invert", 0, Inv(a))
Undo(op, g) == Even(a.s) /\ Small(a) /\ Done(op, g, a)
Next == \/ \E g \in All : Fresh(g)
        \/ \E g \in All : Right(g)
        \/ \E g \in Uniform : Left(g)
        \/ \E g \in {0, 1, 2, 3} : Invert                     \* more likely
        \/ \E op \in {"undo right", "undo left", "undo twice"} : \E g \in Uniform : Undo(op, g)
Rigid == MM(a.m, Tr(a.m)) = Id /\ Det(a.m) = 1
Obs == [pose |-> a, pts |-> [n \in 1..3 |-> Point(a, Points[n])], dirs |-> [n \in 1..3 |-> Direction(a, Points[n])],
        va |-> [n \in 1..3 |-> a.va], vb |-> [n \in 1..3 |-> AddV(a.vb, Cross(a.k, Direction(a, Points[n])))]]
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
