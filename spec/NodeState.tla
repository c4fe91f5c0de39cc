------------------------------ MODULE NodeState -------------------------------
(* How the nodes of a scene are placed: the setters of a node, which of them a tree admits, and
   where every node is at a time. Node 1 is the root. Numbers as in Pose.                        *)
EXTENDS Pose, FiniteSets, TLC, Json
CONSTANTS Max,            \* nodes at one time
          Vals,           \* how many of the values below are used
          Parts,
          Far             \* look at several times, not just one
VARIABLES nd, act
vars == nd
(* the time the manual settings hold at, and the time looked at *)
TimesSeq == IF Far THEN <<<<0, 0>>, <<0, 1>>, <<2, 5>>, <<1, -2>>>> ELSE <<<<0, 1>>>>
Times == {TimesSeq[q] : q \in 1..Len(TimesSeq)}

None == 0
Nodes == 1..Max
There(i) == nd[i].par # None \/ i = 1
P(n) == <<<<3, 0, -2>>, <<0, 5, 1>>, <<-4, 2, 7>>>>[n]
VV(n) == <<<<1, 0, 2>>, <<0, -3, 1>>, <<0, 0, 0>>>>[n]
R(n) == <<Turn(1, 1), Turn(3, 1), MM(Turn(2, 1), Turn(1, 3))>>[n]
W(n) == <<<<0, 0, 1>>, <<-1, 0, 0>>, <<0, 2, 0>>>>[n]
Sc(n) == <<<<2, 2, 2>>, <<1, 1, 1>>, <<1, 3, 2>>>>[n]            \* the last only where nothing hangs below
Org(n) == <<"A", "B">>[n]
Frm(n) == <<"FX", "FY">>[n]

(* what the ephemeris says *)
Spk(o, t) == CASE o = "A" -> [p |-> <<1000 + 1000 * t, 2000, -1000>>, v |-> <<1000, 0, 0>>]
               [] o = "B" -> [p |-> <<0, 3000 - 1000 * t, 2000 * t>>, v |-> <<0, -1000, 2000>>]
               [] OTHER -> [p |-> V0, v |-> V0]
Frame(f, t) == CASE f = "FX" -> [m |-> MM(Turn(1, 1), Turn(3, t)), k |-> Ap(Turn(1, 1), <<0, 0, 1>>)]
                 [] f = "FY" -> [m |-> MM(Turn(1, 3), Turn(3, 1)), k |-> V0]
                 [] OTHER -> [m |-> Id, k |-> V0]

Fresh(p, kind) == [par |-> p, kind |-> kind, pm |-> "man", rm |-> "man", p |-> V0, v |-> V0, m |-> Id, w |-> V0, body |-> FALSE,
                   s |-> Ones, org |-> "", frm |-> "", pc |-> 0, rc |-> 0, tc |-> 0]
Nobody == Fresh(None, "none")
Init == /\ nd = [i \in Nodes |-> IF i = 1 THEN [Fresh(None, "frame") EXCEPT !.pm = "spice", !.rm = "spice", !.org = "SOLAR SYSTEM BARYCENTER", !.frm = "J2000"] ELSE Nobody]
        /\ act = [op |-> "init"]

Kids(i) == {j \in Nodes : nd[j].par = i /\ There(j)}
RECURSIVE Below(_)
Below(i) == {i} \cup UNION {Below(j) : j \in Kids(i)}

(* ---- which settings a tree admits *)
PosHeld(i) == i = 1 \/ \E j \in Kids(i) : nd[j].pm = "spice"     \* something needs this node's ephemeris
RotHeld(i) == i = 1 \/ \E j \in Kids(i) : nd[j].rm = "spice"
PosCan(i) == i = 1 \/ nd[nd[i].par].pm = "spice"
RotCan(i) == i = 1 \/ nd[nd[i].par].rm = "spice"

Done(op, i, a, b, ok, new) == /\ nd' = IF ok THEN [nd EXCEPT ![i] = new] ELSE nd
                              /\ act' = [op |-> op, i |-> i, a |-> a, b |-> b, res |-> IF ok THEN "ok" ELSE "error"]
Free == {i \in Nodes : ~There(i)}
Lowest == CHOOSE i \in Free : \A j \in Free : i <= j

SetPosition(i, n) == There(i) /\ Done("position", i, P(n), 0, ~PosHeld(i), [nd[i] EXCEPT !.pm = "man", !.p = P(n), !.org = ""])
SetVelocity(i, n) == There(i) /\ Done("velocity", i, VV(n), 0, nd[i].pm = "man", [nd[i] EXCEPT !.v = VV(n)])
SetRotation(i, n) == There(i) /\ Done("rotation", i, R(n), 0, ~RotHeld(i), [nd[i] EXCEPT !.rm = "man", !.m = R(n), !.frm = ""])
SetSpin(i, n, body) == There(i) /\ Done(IF body THEN "bodyspin" ELSE "spin", i, W(n), 0, nd[i].rm = "man", [nd[i] EXCEPT !.w = W(n), !.body = body])
SetScale(i, n) == There(i) /\ i # 1 /\ (n = 3 => nd[i].kind = "inst") /\ Done("scale", i, Sc(n), 0, TRUE, [nd[i] EXCEPT !.s = Sc(n)])
SetManual(i, n) == There(i) /\ Done("manual", i, [p |-> P(n), v |-> VV(n), m |-> R(n), w |-> W(n), s |-> Sc(1)], 0, ~PosHeld(i) /\ ~RotHeld(i),
                        [nd[i] EXCEPT !.pm = "man", !.rm = "man", !.p = P(n), !.v = VV(n), !.m = R(n), !.w = W(n), !.body = FALSE, !.s = Sc(1),
                                      !.org = "", !.frm = ""])
SetOrigin(i, n) == There(i) /\ i # 1 /\ Done("origin", i, Org(n), 0, PosCan(i), [nd[i] EXCEPT !.pm = "spice", !.org = Org(n)])
SetFrame(i, n) == There(i) /\ i # 1 /\ Done("frame", i, Frm(n), 0, RotCan(i), [nd[i] EXCEPT !.rm = "spice", !.frm = Frm(n)])
SetSpice(i, n, k) == There(i) /\ i # 1 /\ Done("spice", i, Org(n), Frm(k), PosCan(i) /\ RotCan(i),
                          [nd[i] EXCEPT !.pm = "spice", !.rm = "spice", !.org = Org(n), !.frm = Frm(k)])
SetPosCb(i, n) == There(i) /\ Done("poscb", i, n, 0, ~PosHeld(i), [nd[i] EXCEPT !.pm = "pcb", !.pc = n, !.org = ""])
SetRotCb(i, n) == There(i) /\ Done("rotcb", i, n, 0, ~RotHeld(i), [nd[i] EXCEPT !.rm = "rcb", !.rc = n, !.frm = ""])
SetCb(i, n) == There(i) /\ Done("cb", i, n, 0, ~PosHeld(i) /\ ~RotHeld(i), [nd[i] EXCEPT !.pm = "tcb", !.rm = "tcb", !.tc = n, !.org = "", !.frm = ""])
Add(p, kind) == /\ There(p) /\ nd[p].kind = "frame" /\ Free # {}
                /\ nd[p].s[2] = nd[p].s[1]
                /\ Done("add", Lowest, p, kind, TRUE, Fresh(p, kind))
AddSpice(p, n, k) == /\ There(p) /\ nd[p].kind = "frame" /\ Free # {}
                     /\ Done("addspice", Lowest, p, <<Org(n), Frm(k)>>, nd[p].pm = "spice" /\ nd[p].rm = "spice",
                             [Fresh(p, "frame") EXCEPT !.pm = "spice", !.rm = "spice", !.org = Org(n), !.frm = Frm(k)])
Del(i) == /\ There(i) /\ i # 1
          /\ nd' = [j \in Nodes |-> IF j \in Below(i) THEN Nobody ELSE nd[j]]
          /\ act' = [op |-> "del", i |-> i, a |-> nd[i].par, b |-> 0, res |-> "ok"]

On(part, set) == IF part \in Parts THEN set ELSE {}
N == 1..Vals
N2 == 1..(IF Vals > 1 THEN 2 ELSE 1)
Next == \/ \E i \in Nodes : \E n \in N : SetPosition(i, n)
        \/ \E i \in Nodes : \E n \in N : SetRotation(i, n)
        \/ \E i \in Nodes : \E n \in On("motion", N) : SetVelocity(i, n)
        \/ \E i \in Nodes : \E n \in On("motion", N) : \E b \in BOOLEAN : SetSpin(i, n, b)
        \/ \E i \in Nodes : \E n \in On("scale", N) : SetScale(i, n)
        \/ \E i \in Nodes : \E n \in On("manual", N) : SetManual(i, n)
        \/ \E i \in Nodes : \E n \in N2 : SetOrigin(i, n)
        \/ \E i \in Nodes : \E n \in N2 : SetFrame(i, n)
        \/ \E i \in Nodes : \E n \in On("both", N2) : \E k \in N2 : SetSpice(i, n, k)
        \/ \E i \in Nodes : \E n \in On("callbacks", {1, 2}) : SetPosCb(i, n)
        \/ \E i \in Nodes : \E n \in On("callbacks", {1, 2}) : SetRotCb(i, n)
        \/ \E i \in Nodes : \E n \in On("callbacks", {1, 2}) : SetCb(i, n)
        \/ \E p \in Nodes : \E k \in On("add", {"frame", "inst"}) : Add(p, k)
        \/ \E p \in Nodes : \E n \in On("add", N2) : AddSpice(p, n, n)
        \/ \E i \in On("add", Nodes) : Del(i)

(* ---- where a node is at time t when its manual settings hold at time e *)
RECURSIVE World(_, _, _)
Local(i, e, t, par) ==
    LET d == nd[i]
        sp == Spk(d.org, t)
        rel == Ap(Tr(par.m), SubV(sp.p, par.p))                    \* only its direction is used
        tcb == IF d.tc = 2 THEN [p |-> <<0, t, -3>>, va |-> <<0, 1, 0>>, m |-> Turn(1, t), k |-> <<1, 0, 0>>]
                           ELSE [p |-> <<t, 1, 0>>, va |-> <<1, 0, 0>>, m |-> Turn(2, t), k |-> <<0, 1, 0>>]
        m0 == CASE d.rm = "man" -> (IF d.body THEN MM(d.m, Spin(d.w, t - e)) ELSE MM(Spin(d.w, t - e), d.m))
                [] d.rm = "tcb" -> tcb.m
                [] d.rm = "spice" -> MM(Tr(par.m), Frame(d.frm, t).m)
                [] OTHER -> Id
        k0 == CASE d.rm = "man" -> (IF d.body THEN Ap(m0, d.w) ELSE d.w)
                [] d.rm = "tcb" -> tcb.k
                [] d.rm = "spice" -> Ap(Tr(par.m), SubV(Frame(d.frm, t).k, par.k))
                [] OTHER -> V0
        p0 == CASE d.pm = "man" -> AddV(d.p, MulS(t - e, d.v))
                [] d.pm = "tcb" -> tcb.p
                [] d.pm = "pcb" -> (IF d.pc = 1 THEN <<t, -2, t * t>> ELSE Ap(m0, <<0, 5, 1>>))
                [] OTHER -> rel
        va0 == CASE d.pm = "man" -> d.v
                 [] d.pm = "tcb" -> tcb.va
                 [] d.pm = "pcb" -> (IF d.pc = 1 THEN <<1, 0, 2 * t>> ELSE V0)
                 [] OTHER -> V0
        vb0 == IF d.pm = "pcb" /\ d.pc = 2 THEN k0 ELSE V0
        m1 == IF d.rm # "rcb" THEN m0 ELSE IF d.rc = 1 THEN Turn(3, t) ELSE IF p0[3] > 0 THEN Turn(1, 1) ELSE Turn(2, 1)
        k1 == IF d.rm # "rcb" THEN k0 ELSE IF d.rc = 1 THEN <<0, 0, 1>> ELSE V0
    IN [p |-> p0, m |-> m1, s |-> d.s, va |-> va0, vb |-> vb0, k |-> k1]
World(i, e, t) ==
    LET d == nd[i]
        sp == Spk(d.org, t)
        fr == Frame(d.frm, t)
    IN IF d.pm = "spice" /\ d.rm = "spice"
       THEN [p |-> sp.p, va |-> sp.v, vb |-> V0, m |-> fr.m, k |-> fr.k, s |-> d.s]
       ELSE LET par == World(d.par, e, t)
                c == Comp(par, Local(i, e, t, par))
                c1 == IF d.pm = "spice" THEN [c EXCEPT !.p = sp.p, !.va = sp.v, !.vb = V0] ELSE c
            IN IF d.rm = "spice" THEN [c1 EXCEPT !.m = fr.m, !.k = fr.k] ELSE c1

(* ---- the properties, on the specification *)
Hangs == \A i \in Nodes : There(i) /\ i # 1 =>
             /\ There(nd[i].par) /\ nd[nd[i].par].kind = "frame"
             /\ (nd[i].pm = "spice" => nd[nd[i].par].pm = "spice")
             /\ (nd[i].rm = "spice" => nd[nd[i].par].rm = "spice")
RootStays == nd[1].pm = "spice" /\ nd[1].rm = "spice"
Both == \A i \in Nodes : nd[i].pm = "spice" <=> nd[i].org # ""
Rigid == \A i \in Nodes : There(i) => \A q \in Times : LET w == World(i, q[1], q[2]) IN MM(w.m, Tr(w.m)) = Id /\ Det(w.m) = 1
(* where a node's position or orientation comes from the ephemeris, that is where it is *)
Ephemeris == \A i \in Nodes : There(i) => \A q \in Times :
                 /\ (nd[i].pm = "spice" => World(i, q[1], q[2]).p = Spk(nd[i].org, q[2]).p)
                 /\ (nd[i].rm = "spice" => World(i, q[1], q[2]).m = Frame(nd[i].frm, q[2]).m)
(* a setting says something about one node only *)
Alone == [][\A i \in Nodes : i # act'.i /\ act'.op # "del" => nd'[i] = nd[i]]_<<nd, act>>

(* ---- observations *)
Err(ok, v) == IF ok THEN v ELSE "error"
Shown(i) == LET d == nd[i]
            IN [n |-> i, par |-> d.par, pm |-> d.pm, rm |-> d.rm,
                st |-> <<Err(d.pm = "man", d.p), Err(d.pm = "man", d.v), Err(d.rm = "man", d.m), Err(d.rm = "man", d.w), d.s,
                         Err(d.pm = "spice", d.org), Err(d.rm = "spice", d.frm)>>,
                at |-> [q \in 1..Len(TimesSeq) |-> World(i, TimesSeq[q][1], TimesSeq[q][2])]]
Obs == LET L[i \in 0..Max] == IF i = 0 THEN <<>> ELSE IF There(i) THEN Append(L[i - 1], Shown(i)) ELSE L[i - 1] IN L[Max]
View == nd
Emit == PrintT(ToJson([f |-> nd, a |-> act', t |-> nd']))
SeeEmit == PrintT(ToJson([s |-> nd, v |-> Obs]))     \* not primed: TLC would evaluate Obs' without sharing
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
