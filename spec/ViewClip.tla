------------------------------ MODULE ViewClip ------------------------------
(* What is inside a view volume: points, triangles, and arcs through direction samples.

   A view volume is a sequence of planes through the origin, given by inward normals; everything is
   in small integers, so that all of this is exact.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES planes, act
vars == <<planes, act>>

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Neg(a) == <<-a[1], -a[2], -a[3]>>
Planes == 1..Len(planes)
Inside(p) == \A i \in Planes : Dot(planes[i], p) >= 0

(* ---- Triangles. A point of the triangle is given by its weights for the three corners, up to a
   positive factor; plane i is then inside where Dot(Row(i), weights) >= 0.                      *)
Row(i, tri) == <<Dot(planes[i], tri[1]), Dot(planes[i], tri[2]), Dot(planes[i], tri[3])>>
InTriangle(w) == w[1] >= 0 /\ w[2] >= 0 /\ w[3] >= 0 /\ w # <<0, 0, 0>>
Keeps(w, tri) == \A i \in Planes : Dot(Row(i, tri), w) >= 0
Unit == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}
EdgePoints(tri) == UNION {LET r == Row(i, tri) IN
    {<<r[2], -r[1], 0>>, <<-r[2], r[1], 0>>, <<r[3], 0, -r[1]>>, <<-r[3], 0, r[1]>>, <<0, r[3], -r[2]>>, <<0, -r[3], r[2]>>} : i \in Planes}
PlanePoints(tri) == UNION {{Cross(Row(i, tri), Row(j, tri)), Neg(Cross(Row(i, tri), Row(j, tri)))} : i \in Planes, j \in Planes}
(* The corners of the part that is kept are among these: corners of the triangle, points where a
   plane meets an edge, and points where two planes meet within the triangle.                    *)
Corners(tri) == {w \in Unit \cup EdgePoints(tri) \cup PlanePoints(tri) : InTriangle(w) /\ Keeps(w, tri)}
(* A triangle lying in a plane is on its inner side, but only as long as nothing is rounded. *)
Flat(tri) == \E i \in Planes : Row(i, tri) = <<0, 0, 0>>
Whole(tri) == \A w \in Unit : Keeps(w, tri)

Grid == {<<i, j, 12 - i - j>> : i \in 0..12, j \in 0..12}
StrictlyInside(w, tri) == w[1] > 0 /\ w[2] > 0 /\ w[3] > 0 /\ \A i \in Planes : Dot(Row(i, tri), w) > 0
StrictlyOutside(w, tri) == \E i \in Planes : Dot(Row(i, tri), w) < 0
Samples(tri, Test(_, _)) == {w \in Grid : w[3] >= 0 /\ Test(w, tri)}

(* ---- Arcs: one sample is constant, two a line, three a parabola, four and five a natural cubic
   spline. Value(y, k) is Scale times the value at parameter k / Steps of the curve through y.   *)
Steps == 48
Scale(n) == CASE n = 1 -> 1 [] n = 2 -> 48 [] n = 3 -> 48 * 48 [] n = 4 -> 15 * 16 * 16 * 16 [] n = 5 -> 56 * 12 * 12 * 12
Second(y, i) == y[i + 2] - 2 * y[i + 1] + y[i]
Kinks(y) ==    \* second derivatives at the knots, times 15 or 56
    IF Len(y) = 4 THEN LET r1 == Second(y, 1) r2 == Second(y, 2) IN <<0, 4 * r1 - r2, 4 * r2 - r1, 0>>
    ELSE LET r1 == Second(y, 1) r2 == Second(y, 2) r3 == Second(y, 3)
         IN <<0, 15 * r1 - 4 * r2 + r3, 16 * r2 - 4 * r1 - 4 * r3, r1 - 4 * r2 + 15 * r3, 0>>
Spline(y, k, det, per) ==
    LET i == IF k = Steps THEN Len(y) - 1 ELSE (k \div per) + 1
        s == k - (i - 1) * per
        m == Kinks(y)
        a == det * y[i]
        b == det * (y[i + 1] - y[i]) - (2 * m[i] + m[i + 1])
        c == 3 * m[i]
        d == m[i + 1] - m[i]
    IN a * per * per * per + s * (b * per * per + s * (c * per + s * d))
Value(y, k) ==
    CASE Len(y) = 1 -> y[1]
      [] Len(y) = 2 -> y[1] * (Steps - k) + y[2] * k
      [] Len(y) = 3 -> y[1] * (Steps - k) * (Steps - 2 * k) + 4 * y[2] * k * (Steps - k) + y[3] * k * (2 * k - Steps)
      [] Len(y) = 4 -> Spline(y, k, 15, 16)
      [] Len(y) = 5 -> Spline(y, k, 56, 12)
Profile(i, arc) == [j \in 1..Len(arc) |-> Dot(planes[i], arc[j])]
(* value of every plane at every step; the arc is visible where none is negative *)
Values(arc) == [k \in 1..Steps + 1 |-> [i \in Planes |-> Value(Profile(i, arc), k - 1)]]

Init == planes = <<>> /\ act = [op |-> "init"]
Volume(ps) == planes' = ps /\ act' = [op |-> "volume", planes |-> ps, res |-> Len(ps)]
Point(p) == act' = [op |-> "point", p |-> p, res |-> Inside(p)] /\ UNCHANGED planes
Triangle(tri) ==
    /\ act' = [op |-> "triangle", tri |-> tri,
               res |-> [whole |-> Whole(tri), flat |-> Flat(tri), corners |-> Corners(tri), inside |-> Samples(tri, StrictlyInside),
                        outside |-> Samples(tri, StrictlyOutside)]]
    /\ UNCHANGED planes
Arc(arc) == act' = [op |-> "arc", arc |-> arc, res |-> [scale |-> Scale(Len(arc)), values |-> Values(arc)]] /\ UNCHANGED planes
Obs == <<>>

(* The two descriptions of the kept part agree: whatever lies strictly inside is between corners,
   nothing kept means no corner, and an untouched triangle has its own corners.                  *)
Consistent == act.op = "triangle" =>
    /\ act.res.whole => Unit \subseteq act.res.corners
    /\ act.res.inside # {} => Cardinality(act.res.corners) >= 3
    /\ act.res.inside \cap act.res.outside = {}
    /\ act.res.whole => act.res.outside = {}
===============================================================================
