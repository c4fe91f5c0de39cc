----------------------------- MODULE SceneFreeze -----------------------------
(* Placements in a scene, and views of it. A view keeps what rays shot along the axes of the camera
   meet: a picture, taken when the view is built. Nothing done later touches the picture.
   Everything sits on a lattice of whole steps, so that a ray through a lattice point meets every
   body centred there at a known distance, at each of the view's sample times.                    *)
EXTENDS Pose, FiniteSets, TLC, Json
CONSTANTS Max,      \* placements and frames ever made
          Slots,    \* views held at once
          Parts     \* groups of operations offered
VARIABLES node,     \* sequence: parent, what is placed ("" for a frame), settings
          live,     \* nodes still in the tree
          assets,   \* assets still there
          sensor,   \* quarter turns of the sensor of each camera model
          views,    \* slot -> pictures, one per sample time; <<>> is an empty slot
          act
vars == <<node, live, assets, sensor, views>>

Space == 20
Lanes == {-40, -20, 0, 20, 40}
Cameras == {"C", "D"}
Bodies == {"E1", "E2", "E3", "B", "L", "M"}
(* what an asset consists of: g(eometry) or l(ight), where, turned how, half its extent along its axes *)
Part(g, p, m, h) == [g |-> g, p |-> p, m |-> m, h |-> h]
Shapes(a) == CASE a = "E1" -> <<Part("g", V0, Id, <<1, 1, 1>>)>>
               [] a \in {"E2", "E3"} -> <<Part("g", V0, Id, <<2, 2, 4>>)>>      \* two primitives of one geometry
               [] a = "B" -> <<Part("g", V0, Id, <<2, 4, 3>>)>>
               [] a = "L" -> <<Part("l", V0, Id, <<3, 3, 3>>)>>
               [] a = "M" -> <<Part("g", V0, Id, <<1, 3, 2>>), Part("g", <<20, 0, 0>>, Turn(3, 1), <<1, 3, 2>>)>>
               [] OTHER -> <<>>
Geometry(a) == CASE a \in {"E2", "E3"} -> "gE" [] a = "E1" -> "gS" [] a = "B" -> "gB" [] OTHER -> a

New(par, a, p) == [par |-> par, a |-> a, p |-> p, m |-> Id, s |-> Ones, v |-> V0, k |-> V0]
Init == /\ node = <<New(0, "", V0)>> /\ live = {1} /\ assets = Bodies \cup Cameras
        /\ sensor = [q \in Cameras |-> 0] /\ views = [v \in Slots |-> <<>>] /\ act = [op |-> "init"]

Issued(i) == i \in 1..Len(node)
Kids(i) == {j \in live : node[j].par = i}
RECURSIVE Below(_)
Below(i) == {i} \cup UNION {Below(j) : j \in Kids(i)}

(* settings hold at the first sample time; t seconds later: *)
Local(i, t) == LET d == node[i] IN Rest(AddV(d.p, MulS(t, d.v)), MM(Spin(d.k, t), d.m), d.s)
RECURSIVE World(_, _)
World(i, t) == IF i = 1 THEN Here ELSE Comp(World(node[i].par, t), Local(i, t))
Eye(c, t) == LET w == World(c, t) IN Rest(w.p, MM(w.m, Turn(3, sensor[node[c].a])), Ones)
From(eye, w) == LET m == Tr(eye.m) IN Rest(Ap(m, SubV(w.p, eye.p)), MM(m, w.m), w.s)
Abs(x) == IF x < 0 THEN -x ELSE x
AbsM(m) == [r \in 1..3 |-> [c \in 1..3 |-> Abs(m[r][c])]]

Seen(c, t) == UNION {{[i |-> i, n |-> n] : n \in 1..Len(Shapes(node[i].a))} : i \in live}
Body(eye, t, e) == LET q == Shapes(node[e.i].a)[e.n]
                     w == Comp(From(eye, World(e.i, t)), Rest(q.p, q.m, Ones))
                 IN [g |-> q.g, c |-> w.p, h |-> Ap(AbsM(w.m), Had(w.s, q.h))]
(* a ray along axis a (d = 1) or against it (d = -1) starts 1000 steps off *)
Far == 1000
Other(a) == CASE a = 1 -> <<2, 3>> [] a = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
Picture(c, t) ==
    LET eye == Eye(c, t)
        bodies == {Body(eye, t, e) : e \in Seen(c, t)}
        raw == {[k |-> b.g, a |-> a, d |-> d, x |-> b.c[Other(a)[1]], y |-> b.c[Other(a)[2]], t |-> Far + d * b.c[a] - b.h[a]]
                   : b \in bodies, a \in 1..3, d \in {-1, 1}}
        near == {h \in raw : h.x \in Lanes /\ h.y \in Lanes /\ h.t > 0}
        first(set) == {h \in set : \A o \in set : o.a = h.a /\ o.d = h.d /\ o.x = h.x /\ o.y = h.y => o.t >= h.t}
        List(set, k) == {<<k, h.a, h.d, h.x, h.y, h.t>> : h \in set}
    IN List(first({h \in near : h.k = "g"}), 1) \cup List(first({h \in near : h.k = "l"}), 2) \cup List(first(near), 3)

Done(o, r) == act' = [o EXCEPT !.res = r]
Act(op, i, x, y) == [op |-> op, i |-> i, x |-> x, y |-> y, res |-> ""]
Fail(o) == Done(o, "error") /\ UNCHANGED vars
Place(par, a, p) ==
    /\ Len(node) < Max /\ Issued(par) /\ node[par].a = ""
    /\ LET o == Act("place", par, a, p)
       IN IF par \in live /\ (a = "" \/ a \in assets)
          THEN /\ node' = Append(node, New(par, a, p)) /\ live' = live \cup {Len(node) + 1} /\ Done(o, "ok")
               /\ UNCHANGED <<assets, sensor, views>>
          ELSE Fail(o)
Set(i, what, x) ==
    /\ Issued(i) /\ i # 1
    /\ LET o == Act("set", i, what, x)
       IN IF i \in live
          THEN /\ node' = [node EXCEPT ![i] = CASE what = "p" -> [@ EXCEPT !.p = x]
                                               [] what = "m" -> [@ EXCEPT !.m = Turn(x[1], x[2])]
                                               [] what = "s" -> [@ EXCEPT !.s = x]
                                               [] what = "v" -> [@ EXCEPT !.v = x]
                                               [] OTHER -> [@ EXCEPT !.k = x]]
               /\ Done(o, "ok") /\ UNCHANGED <<live, assets, sensor, views>>
          ELSE Fail(o)
Remove(i) ==
    /\ Issued(i) /\ i # 1
    /\ LET o == Act("remove", i, node[i].par, 0)
       IN IF i \in live THEN live' = live \ Below(i) /\ Done(o, "ok") /\ UNCHANGED <<node, assets, sensor, views>> ELSE Fail(o)
(* an asset goes with its placements, a geometry with everything made of it *)
Drop(a) ==
    LET gone == {x \in assets : x = a \/ Geometry(x) = a}
        o == Act("drop", 0, a, 0)
    IN IF gone # {}
       THEN /\ assets' = assets \ gone /\ live' = live \ {i \in live : node[i].a \in gone} /\ Done(o, "ok")
            /\ UNCHANGED <<node, sensor, views>>
       ELSE UNCHANGED vars /\ Done(o, "none")
Sensor(c, q) == LET o == Act("sensor", 0, c, q)
                IN IF c \in assets THEN sensor' = [sensor EXCEPT ![c] = q] /\ Done(o, "ok") /\ UNCHANGED <<node, live, assets, views>>
                   ELSE Fail(o)
(* n sample times a second apart, seen from placement c; only a camera can look *)
Build(v, c, n) ==
    /\ Issued(c) /\ node[c].a # ""
    /\ LET o == Act("view", c, v, n)
       IN IF c \in live /\ node[c].a \in Cameras
          THEN /\ World(c, 0).s = Ones
               /\ views' = [views EXCEPT ![v] = [t \in 1..n |-> Picture(c, t - 1)]] /\ Done(o, "ok")
               /\ UNCHANGED <<node, live, assets, sensor>>
          ELSE Fail(o)
Forget(v) == views[v] # <<>> /\ views' = [views EXCEPT ![v] = <<>>] /\ Done(Act("forget", 0, v, 0), "ok") /\ UNCHANGED <<node, live, assets, sensor>>
End == live # {} /\ live' = {} /\ assets' = {} /\ Done(Act("end", 0, 0, 0), "ok") /\ UNCHANGED <<node, sensor, views>>

On(part, X) == IF part \in Parts THEN X ELSE {}
Spots == {<<0, 0, 0>>, <<20, 0, -20>>}
Next == \/ \E par \in 1..Max : \E a \in {"", "C", "E1", "L"} \cup On("more", {"M"}) : \E p \in Spots : Place(par, a, p)
        \/ \E i \in 1..Max : \E x \in Spots : Set(i, "p", x)
        \/ \E i \in On("motion", 1..Max) : Set(i, "v", <<0, 20, 0>>) \/ Set(i, "k", <<0, 0, 1>>)
        \/ \E i \in 1..Max : Remove(i)
        \/ \E a \in {"E1", "L"} : Drop(a)
        \/ \E v \in Slots : \E c \in 1..Max : \E n \in {1} \cup On("motion", {2}) : Build(v, c, n)
        \/ On("end", {1}) # {} /\ (\E v \in Slots : views[v] # <<>>) /\ End

(* ---- the properties, on the specification *)
TypeOK == live \subseteq 1..Len(node) /\ \A i \in live : i = 1 \/ node[i].par \in live
Frozen == [][\A v \in Slots : views'[v] # views[v] => act'.op \in {"view", "forget", "reset"}]_<<vars, act>>
ViewsChangeNothing == [][act'.op = "view" => UNCHANGED <<node, live, assets, sensor>>]_<<vars, act>>
(* a built view shows each placement reachable from the root, and nothing else: what is met belongs to
   a placement, a light is met exactly as often as lights are placed in reach, and an empty scene is empty *)
Shown == [][act'.op = "view" /\ act'.res = "ok" =>
              \A t \in 1..act'.y :
                  LET eye == Eye(act'.i, t - 1)
                      at == {Body(eye, t - 1, e) : e \in Seen(act'.i, t - 1)}
                      pic == views'[act'.x][t]
                  IN /\ \A h \in pic : \E b \in at : h[6] = Far + h[3] * b.c[h[2]] - b.h[h[2]]
                     /\ \A b \in at : (\A a \in 1..3 : b.c[a] \in Lanes) =>
                           \A d \in {-1, 1} : \E h \in pic : /\ h[1] = (IF b.g = "g" THEN 1 ELSE 2) /\ h[2] = 1 /\ h[3] = d
                                                               /\ h[4] = b.c[2] /\ h[5] = b.c[3] /\ h[6] <= Far + d * b.c[1] - b.h[1]]_<<vars, act>>

St == <<node, live, assets, sensor, views>>
View == St
Obs == views
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St']))
SeeEmit == PrintT(ToJson([s |-> St, v |-> Obs]))
===============================================================================
