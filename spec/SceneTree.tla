------------------------------ MODULE SceneTree -------------------------------
(* The objects of two scenes and the placements in their trees. Every object ever made keeps its
   number; 1 and 2 are the root frames. A handle to object i works exactly while i is live.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Max,      \* objects ever made
          Simple,   \* kinds of objects that need nothing else: "light", "unres", "camera"
          Parts,    \* groups of operations offered
          Scenes
VARIABLES obj, live, ended, act
vars == <<obj, live, ended>>

None == 0
Ids == 1..Max
Issued == 1..Len(obj)
Rec(k, s, p, a) == [k |-> k, sc |-> s, par |-> p, as |-> a]
Init == /\ obj = <<Rec("frame", 1, None, None), Rec("frame", 2, None, None)>>
        /\ live = {1, 2} /\ ended = {} /\ act = [op |-> "init"]

Node(i) == obj[i].k \in {"frame", "inst"}
Is(i, K) == i \in Issued /\ obj[i].k \in K
Kids(i) == {j \in live : obj[j].par = i}
RECURSIVE Below(_)
Below(i) == {i} \cup UNION {Below(j) : j \in Kids(i)}
Placements(a) == {j \in live : obj[j].as = a /\ obj[j].k = "inst"}
Owned(s) == {j \in live : obj[j].sc = s}

Done(o, res) == act' = [o EXCEPT !.res = res]
Fail(o) == Done(o, "error") /\ UNCHANGED vars
Add(o, rs) == /\ Len(obj) + Len(rs) <= Max
              /\ obj' = obj \o rs /\ live' = live \cup ((Len(obj) + 1)..(Len(obj) + Len(rs)))
              /\ Done(o, "ok") /\ UNCHANGED ended
Remove(o, S) == live' = live \ S /\ Done(o, "ok") /\ UNCHANGED <<obj, ended>>
O(op, s, i, j) == [op |-> op, s |-> s, i |-> i, j |-> j, res |-> ""]

New(s, k) == s \notin ended /\ Add([O("new", s, 0, 0) EXCEPT !.op = k], <<Rec(k, s, None, None)>>)
Prim(s, g) == /\ s \notin ended /\ Is(g, {"geom"})
              /\ LET o == O("prim", s, g, 0)
                 IN IF g \in live /\ obj[g].sc = s THEN Add(o, <<Rec("prim", s, None, g)>>) ELSE Fail(o)
(* a file with one mesh: its geometry, its primitive, and the model whose own graph places the primitive *)
Load(s) == /\ s \notin ended
           /\ LET n == Len(obj)
              IN Add(O("load", s, 0, 0), <<Rec("geom", s, None, None), Rec("prim", s, None, n + 1), Rec("model", s, None, n + 2)>>)
Frame(p) == /\ Is(p, {"frame"})
            /\ LET o == O("frame", 0, p, 0) IN IF p \in live THEN Add(o, <<Rec("frame", obj[p].sc, p, None)>>) ELSE Fail(o)
Inst(p, a) == /\ Is(p, {"frame"}) /\ Is(a, Simple \cup {"prim", "model"})
              /\ LET o == O("inst", 0, p, a)
                 IN IF p \in live /\ a \in live /\ obj[a].sc = obj[p].sc
                    THEN Add(o, <<Rec("inst", obj[p].sc, p, a)>>) ELSE Fail(o)

Gone(a) == IF obj[a].k = "geom"                                   \* a geometry takes its primitives along
           THEN LET ps == {j \in live : obj[j].k = "prim" /\ obj[j].as = a}
                IN {a} \cup ps \cup UNION {Placements(j) : j \in ps}
           ELSE {a} \cup Placements(a)
DelAsset(s, a) == /\ s \notin ended /\ Is(a, Simple \cup {"geom", "prim", "model"})
                  /\ LET o == O("delasset", s, a, 0)
                     IN IF a \in live /\ obj[a].sc = s THEN Remove(o, Gone(a)) ELSE Fail(o)
DelNode(p, c) == /\ Is(p, {"frame"}) /\ Is(c, {"frame", "inst"})
                 /\ LET o == O("delnode", 0, p, c)
                    IN IF p \in live /\ c \in live /\ obj[c].par = p THEN Remove(o, Below(c)) ELSE Fail(o)
End(s) == s = 2 /\ s \notin ended /\ ended' = ended \cup {s} /\ live' = live \ Owned(s) /\ UNCHANGED obj /\ Done(O("end", s, 0, 0), "ok")

On(part, set) == IF part \in Parts THEN set ELSE {}
Next == \/ \E s \in Scenes : \E k \in Simple \cup On("geom", {"geom"}) : New(s, k)
        \/ \E s \in On("geom", Scenes) : \E g \in Ids : Prim(s, g)
        \/ \E s \in On("model", Scenes) : Load(s)
        \/ \E p \in Ids : Frame(p)
        \/ \E p \in Ids : \E a \in Ids : Inst(p, a)
        \/ \E s \in Scenes : \E a \in Ids : DelAsset(s, a)
        \/ \E p \in Ids : \E c \in Ids : DelNode(p, c)
        \/ \E s \in On("end", Scenes) : End(s)

(* ---- the properties, on the specification *)
Tree == \A i \in live : Node(i) /\ i \notin {1, 2} => obj[i].par \in live /\ obj[obj[i].par].k = "frame" /\ obj[obj[i].par].sc = obj[i].sc
NoDangling == \A i \in live : obj[i].as # None /\ obj[i].k # "model" => obj[i].as \in live /\ obj[obj[i].as].sc = obj[i].sc
Roots == 1 \in live
StayDead == [][live' \cap Issued \subseteq live]_vars
(* what leaves depends on what was deleted: it is that object, hangs below it, or places it *)
RECURSIVE Needs(_, _)
Needs(j, a) == \/ j = a
               \/ obj[j].par # None /\ Needs(obj[j].par, a)
               \/ obj[j].as # None /\ Needs(obj[j].as, a) /\ obj[j].k # "model"
OnlyDependents == [][LET lost == live \ live'
                     IN CASE act'.op = "end" -> lost = Owned(2)
                          [] act'.res = "error" -> lost = {}
                          [] act'.op = "delasset" -> lost = {j \in live : Needs(j, act'.i)}
                          [] act'.op = "delnode" -> lost = {j \in live : Needs(j, act'.j)}
                          [] OTHER -> lost = {}]_<<vars, act>>

(* ---- observations *)
Sorted(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE m \in T : \A n \in T : m <= n IN <<m>> \o F(T \ {m})
             IN F(S)
See(i) == IF i \notin live THEN <<"dead">>
          ELSE CASE obj[i].k = "frame" -> <<"frame", obj[i].par, Sorted(Kids(i))>>
                 [] obj[i].k = "inst" -> <<"inst", obj[i].par, obj[i].as>>
                 [] obj[i].k = "prim" -> <<"prim", obj[i].as>>
                 [] obj[i].k = "model" -> <<"model", IF i - 1 \in live THEN 1 ELSE 0>>
                 [] OTHER -> <<obj[i].k>>
Obs == [i \in Issued |-> See(i)]
St == <<obj, live, ended>>
View == St
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
