------------------------------- MODULE Orbits -------------------------------
(* Nodes on Kepler orbits, some of them keeping their z axis up or down, with  *)
(* others riding on them. An orbit is asked for at the four moments at which   *)
(* its eccentric anomaly is a whole number of quarter turns, any number of     *)
(* revolutions on, in any order: there everything is rational. Lengths are in  *)
(* thousands of kilometres; orientations are given in fifths.                  *)
EXTENDS Pose, TLC, Json
CONSTANT Nodes
VARIABLES act, node
Resting == [kind |-> "rest", par |-> 0, p |-> V0, m |-> Id, size |-> 1, ecc |-> 0, inc |-> 0, raan |-> 0, argp |-> 0, face |-> "none"]
Init == act = [op |-> "init"] /\ node = [i \in Nodes |-> Resting]

\* -- one orbit: semi-major axis 5 * size, eccentricity ecc / 5 (0, 3 or 4)
Minor(o) == CASE o.ecc = 0 -> 5 * o.size [] o.ecc = 3 -> 4 * o.size [] o.ecc = 4 -> 3 * o.size
Plane(o) == MM(Turn(3, o.raan), MM(Turn(1, o.inc), Turn(3, o.argp)))
\* in the plane at anomaly q
Flat(o, q) == <<5 * o.size * C(q) - o.ecc * o.size, Minor(o) * S(q), 0>>
\* velocity: [n, d] times the mean motion, and its direction
Rush(o, q) == [n |-> <<-25 * o.size * S(q), 5 * Minor(o) * C(q), 0>>, d |-> 5 - o.ecc * C(q)]
Where(o, q) == Ap(Plane(o), Flat(o, q))
Going(o, q) == [n |-> Ap(Plane(o), Rush(o, q).n), d |-> Rush(o, q).d]
\* z along or against the radius, x along z-cross-y's normal, all in fifths; the radius is 5 - e cos times the size
Radius(o, q) == 5 * o.size - ((o.ecc * C(q) * 5 * o.size) \div 5)
Fifth(v, r) == [i \in 1..3 |-> (5 * v[i]) \div r]
Norm5(v) == CASE v[1] # 0 -> <<IF v[1] > 0 THEN 1 ELSE -1, 0, 0>> [] v[2] # 0 -> <<0, IF v[2] > 0 THEN 1 ELSE -1, 0>> [] OTHER -> <<0, 0, IF v[3] > 0 THEN 1 ELSE -1>>
Facing(o, q) == \* columns x, y, z
    LET up == Fifth(Where(o, q), Radius(o, q))
        z == IF o.face = "down" THEN MulS(-1, up) ELSE up
        x == Norm5(Cross(Going(o, q).n, z))
        y == Cross(z, x)
    IN IF o.face = "none" THEN <<<<5, 0, 0>>, <<0, 5, 0>>, <<0, 0, 5>>>>
       ELSE Tr(<<MulS(5, x), y, z>>)
\* -- settings
Orbit(c) == /\ act' = c
            /\ node' = [node EXCEPT ![c.i] = [kind |-> "orbit", par |-> c.par, p |-> V0, m |-> Id, size |-> c.size, ecc |-> c.ecc, inc |-> c.inc,
                                              raan |-> c.raan, argp |-> c.argp, face |-> c.face]]
Settle(c) == /\ act' = c
           /\ node' = [node EXCEPT ![c.i] = [Resting EXCEPT !.par = c.par, !.p = c.p, !.m = Turn(c.ax, c.turn)]]
\* -- where node i is when the orbiting node on its way to the root is at anomaly q
Five(m) == [r \in 1..3 |-> MulS(5, m[r])]
\* the place in fifths and the orientation in fifths (at most one of a chain is in fifths)
RECURSIVE At(_, _)
Own(i, q) == IF node[i].kind = "rest" THEN [p |-> MulS(5, node[i].p), m |-> Five(node[i].m)]
             ELSE [p |-> MulS(5, Where(node[i], q)), m |-> Facing(node[i], q)]
At(i, q) == LET o == Own(i, q) IN
            IF node[i].par = 0 THEN o
            ELSE LET a == At(node[i].par, q)
                     d == Ap(a.m, o.p)
                     x == MM(a.m, o.m)
                 IN [p |-> AddV(a.p, [k \in 1..3 |-> d[k] \div 5]), m |-> [r \in 1..3 |-> [k \in 1..3 |-> x[r][k] \div 5]]]
RECURSIVE Carrier(_)
Carrier(i) == IF i = 0 THEN 0 ELSE IF node[i].kind = "orbit" THEN i ELSE Carrier(node[i].par)
See(c) ==
    /\ act' = [c EXCEPT !.res =
         LET k == Carrier(c.i) IN
         [p |-> At(c.i, c.q).p, m |-> At(c.i, c.q).m, by |-> k,
          v |-> IF k = c.i /\ node[c.i].par = 0 THEN Going(node[c.i], c.q) ELSE [n |-> V0, d |-> 0]]]
    /\ UNCHANGED node
\* -- sane: on the ellipse, at the right energy (vis-viva), swept evenly
OnEllipse == \A i \in Nodes, q \in 0..3 :
    node[i].kind = "orbit" => LET o == node[i] IN
        /\ Dot(Where(o, q), Where(o, q)) = Radius(o, q) * Radius(o, q)
        /\ LET g == Going(o, q) IN
              \* v^2 / n^2 a^2 = 2a/r - 1
              Dot(g.n, g.n) * Radius(o, q) = (2 * 5 * o.size - Radius(o, q)) * 25 * o.size * o.size * g.d * g.d
        /\ LET h == Cross(Where(o, q), Going(o, q).n) IN
              Dot(h, h) = (5 * o.size * Minor(o) * Going(o, q).d) * (5 * o.size * Minor(o) * Going(o, q).d)
Upright == \A i \in Nodes, q \in 0..3 : node[i].kind = "orbit" /\ node[i].face # "none" =>
    LET f == Tr(Facing(node[i], q)) IN /\ \A a \in 1..3 : Dot(f[a], f[a]) = 25
                                       /\ Cross(f[1], f[2]) = MulS(5, f[3])
                                       /\ Dot(f[2], Going(node[i], q).n) > 0
=============================================================================
