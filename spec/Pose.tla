--------------------------------- MODULE Pose ---------------------------------
(* Poses with exact numbers: orientations are quarter turns about the axes, as integer matrices.
   A velocity is va + vb * pi/2 and an angular velocity k * pi/2, so that motion at a whole number
   of quarter turns per second stays exact.                                                       *)
EXTENDS Integers, Sequences

V0 == <<0, 0, 0>>
Ones == <<1, 1, 1>>
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
AddV(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
SubV(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
MulS(n, a) == <<n * a[1], n * a[2], n * a[3]>>
Had(a, b) == <<a[1] * b[1], a[2] * b[2], a[3] * b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Tr(m) == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
Ap(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
MM(a, b) == LET t == Tr(b) IN <<Ap(t, a[1]), Ap(t, a[2]), Ap(t, a[3])>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
C(n) == <<1, 0, -1, 0>>[(n % 4) + 1]
S(n) == <<0, 1, 0, -1>>[(n % 4) + 1]
(* n quarter turns about axis 1, 2 or 3, or opposite for a negative axis *)
Turn(ax, n) == LET a == IF ax < 0 THEN -ax ELSE ax
                   q == IF ax < 0 THEN -n ELSE n
               IN CASE a = 1 -> <<<<1, 0, 0>>, <<0, C(q), -S(q)>>, <<0, S(q), C(q)>>>>
                    [] a = 2 -> <<<<C(q), 0, S(q)>>, <<0, 1, 0>>, <<-S(q), 0, C(q)>>>>
                    [] OTHER -> <<<<C(q), -S(q), 0>>, <<S(q), C(q), 0>>, <<0, 0, 1>>>>
(* the turn made in t seconds by an angular velocity of k quarter turns per second, k along an axis *)
Spin(k, t) == CASE k[1] # 0 -> Turn(1, k[1] * t)
                [] k[2] # 0 -> Turn(2, k[2] * t)
                [] k[3] # 0 -> Turn(3, k[3] * t)
                [] OTHER -> Id

Rest(p, m, s) == [p |-> p, m |-> m, s |-> s, va |-> V0, vb |-> V0, k |-> V0]
Here == Rest(V0, Id, Ones)
(* b, given in the coordinates of a, in those a is given in *)
Comp(a, b) ==
    LET q == Ap(a.m, Had(a.s, b.p))
    IN [p |-> AddV(a.p, q), m |-> MM(a.m, b.m), s |-> Had(a.s, b.s),
        va |-> AddV(a.va, Ap(a.m, Had(a.s, b.va))),
        vb |-> AddV(AddV(a.vb, Ap(a.m, Had(a.s, b.vb))), Cross(a.k, q)),
        k |-> AddV(a.k, Ap(a.m, b.k))]
Point(a, x) == AddV(a.p, Ap(a.m, Had(a.s, x)))
Direction(a, x) == Ap(a.m, Had(a.s, x))
(* of a point that rests in a's coordinates *)
VelocityA(a, x) == a.va
VelocityB(a, x) == AddV(a.vb, Cross(a.k, Direction(a, x)))
===============================================================================
