------------------------------ MODULE Surfaces ------------------------------
(* Meshes and ellipsoids, placed with a turn, a scale and a shift, and what a ray meets first.  Everything is in integers: a crossing is a fraction
   <<num, den>> along the ray and integer weights of the three vertices; an ellipsoid's crossings are the roots of A t^2 + 2 B t + C.
   A crossing through an edge, or at the ray's start, may or may not be reported ("sure" is FALSE). *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES shapes, bodies, frozen, act
vars == <<shapes, bodies, frozen, act>>

Init == shapes = <<>> /\ bodies = <<>> /\ frozen = <<>> /\ act = [op |-> "reset"]

(* vectors *)
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Each(a, b) == <<a[1] * b[1], a[2] * b[2], a[3] * b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Zero == <<0, 0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* quarter turns: first about x, then y, then z *)
TX(v) == <<v[1], -v[3], v[2]>>
TY(v) == <<v[3], v[2], -v[1]>>
TZ(v) == <<-v[2], v[1], v[3]>>
RECURSIVE Rep(_, _, _)
Rep(ax, k, v) == IF k = 0 THEN v ELSE Rep(ax, k - 1, CASE ax = 1 -> TX(v) [] ax = 2 -> TY(v) [] ax = 3 -> TZ(v))
Turn(r, v) == Rep(3, r[3], Rep(2, r[2], Rep(1, r[1], v)))
Back(r, v) == Rep(1, (4 - r[1]) % 4, Rep(2, (4 - r[2]) % 4, Rep(3, (4 - r[3]) % 4, v)))
Placed(b, v) == Add(Turn(b.r, Each(b.s, v)), b.p)
Cof(s) == <<s[2] * s[3], s[3] * s[1], s[1] * s[2]>>

(* a mesh is refused when its triangles are not whole, refer to vertices it does not have, or its tangents are not one per vertex *)
Sound(c) == Len(c.idx) % 3 = 0 /\ (\A k \in DOMAIN c.idx : c.idx[k] < Len(c.v)) /\ (Len(c.tan) = 0 \/ Len(c.tan) = Len(c.v))
Mesh(c) == IF Sound(c) THEN shapes' = Append(shapes, [round |-> FALSE, radii |-> Zero, idx |-> c.idx, v |-> c.v, tan |-> c.tan])
                            /\ act' = [c EXCEPT !.res = [ok |-> TRUE, triangles |-> Len(c.idx) \div 3, vertices |-> Len(c.v), tangents |-> Len(c.tan) > 0]]
                       ELSE shapes' = shapes /\ act' = [c EXCEPT !.res = [ok |-> FALSE, triangles |-> 0, vertices |-> 0, tangents |-> FALSE]]
Round(c) == shapes' = Append(shapes, [round |-> TRUE, radii |-> c.radii, idx |-> <<>>, v |-> <<>>, tan |-> <<>>]) /\ act' = c
Place(c) == act' = c /\ bodies' = (IF c.g \in DOMAIN shapes THEN Append(bodies, [g |-> c.g, s |-> c.s, r |-> c.r, p |-> c.p]) ELSE bodies) /\ UNCHANGED <<shapes, frozen>>
Move(c) == act' = c /\ bodies' = (IF c.b \in DOMAIN bodies THEN [bodies EXCEPT ![c.b] = [@ EXCEPT !.s = c.s, !.r = c.r, !.p = c.p]] ELSE bodies) /\ UNCHANGED <<shapes, frozen>>
Look(c) == act' = c /\ frozen' = bodies /\ UNCHANGED <<shapes, bodies>>

(* one triangle *)
Tri(k, b, j, o, d) ==
    LET g == shapes[b.g]
        i(n) == g.idx[3 * (j - 1) + n] + 1
        at(n) == g.v[i(n)]
        a == Placed(b, at(1).at)
        e == Sub(Placed(b, at(2).at), a)
        f == Sub(Placed(b, at(3).at), a)
        n == Cross(e, f)
        det0 == -Dot(d, n)
        sg == IF det0 < 0 THEN -1 ELSE 1
        det == sg * det0
        ao == Sub(o, a)
        dao == Cross(ao, d)
        t == sg * Dot(ao, n)
        u == sg * Dot(f, dao)
        v == -sg * Dot(e, dao)
        w == det - u - v
        mix(x1, x2, x3) == w * x1 + u * x2 + v * x3
        mixv(x1, x2, x3) == Add(Add(Mul(w, x1), Mul(u, x2)), Mul(v, x3))
        geo == IF Dot(n, d) > 0 THEN Mul(-1, n) ELSE n
        sh0 == Turn(b.r, Each(Cof(b.s), mixv(at(1).n, at(2).n, at(3).n)))
        sh1 == IF sh0 = Zero THEN geo ELSE IF Dot(sh0, geo) < 0 THEN Mul(-1, sh0) ELSE sh0
    IN IF n = Zero THEN <<>>
       ELSE IF det = 0 THEN (IF Dot(ao, n) = 0 THEN <<[kind |-> "wild"]>> ELSE <<>>)
       ELSE IF t < 0 \/ u < 0 \/ v < 0 \/ w < 0 THEN <<>>
       ELSE <<[kind |-> "flat", body |-> k, tri |-> j - 1, sure |-> t > 0 /\ u > 0 /\ v > 0 /\ w > 0, t |-> <<t, det>>,
               uv |-> <<mix(at(1).uv[1], at(2).uv[1], at(3).uv[1]), mix(at(1).uv[2], at(2).uv[2], at(3).uv[2])>>, hue |-> mix(at(1).hue, at(2).hue, at(3).hue),
               geo |-> geo, shade |-> sh1, either |-> Dot(sh0, geo) = 0 /\ sh0 # Zero, open |-> sh0 = Zero /\ \E q \in 1..3 : at(q).n # Zero,
               along |-> IF g.tan = <<>> THEN Zero ELSE Turn(b.r, Each(b.s, mixv(g.tan[i(1)], g.tan[i(2)], g.tan[i(3)])))]>>
Ball(k, b, o, d) ==
    LET g == shapes[b.g]
        m == <<Abs(b.s[1]) * g.radii[1], Abs(b.s[2]) * g.radii[2], Abs(b.s[3]) * g.radii[3]>>
        P == m[1] * m[2] * m[3]
        q == <<P \div m[1], P \div m[2], P \div m[3]>>
        O == Back(b.r, Sub(o, b.p))
        D == Back(b.r, d)
        Oq == Each(q, O)
        Dq == Each(q, D)
    IN <<[kind |-> "round", body |-> k, A |-> Dot(Dq, Dq), B |-> Dot(Oq, Dq), C |-> Dot(Oq, Oq) - P * P, o |-> O, d |-> D, m |-> m, s |-> b.s,
          x |-> Turn(b.r, <<1, 0, 0>>), y |-> Turn(b.r, <<0, 1, 0>>), z |-> Turn(b.r, <<0, 0, 1>>)]>>
RECURSIVE Tris(_, _, _, _, _), All(_, _, _)
Tris(k, b, j, o, d) == IF j = 0 THEN <<>> ELSE Tris(k, b, j - 1, o, d) \o Tri(k, b, j, o, d)
All(k, o, d) == IF k = 0 THEN <<>> ELSE All(k - 1, o, d) \o (IF shapes[frozen[k].g].round THEN Ball(k, frozen[k], o, d)
                                                             ELSE Tris(k, frozen[k], Len(shapes[frozen[k].g].idx) \div 3, o, d))
Ray(c) == act' = [c EXCEPT !.res = All(Len(frozen), c.o, c.d)] /\ UNCHANGED <<shapes, bodies, frozen>>

(* checked by TLC: every crossing lies on the ray and, weighted, on its triangle; its normal faces the ray *)
OnBoth == act.op = "ray" =>
    \A k \in DOMAIN act.res : LET h == act.res[k] IN h.kind = "flat" =>
        LET b == frozen[h.body]
            g == shapes[b.g]
            at(n) == Placed(b, g.v[g.idx[3 * h.tri + n] + 1].at)
        IN /\ Dot(h.geo, act.d) < 0
           /\ Dot(Sub(Add(Mul(h.t[2], act.o), Mul(h.t[1], act.d)), Mul(h.t[2], at(1))), h.geo) = 0
           /\ Dot(h.shade, h.geo) >= 0
=============================================================================
