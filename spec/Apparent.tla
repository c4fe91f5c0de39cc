------------------------------ MODULE Apparent ------------------------------
(* Where an observer sees a body. Lengths are light-seconds, times seconds     *)
(* since the moment the settings hold, speeds thousandths of that of light.    *)
(* A body is placed so that the light seen at `at` left it a whole number k of  *)
(* seconds before: at the place o + e, where |e| = k. Two frames may share its  *)
(* motion. The observer moves along an axis at f/g of the speed of light, with  *)
(* g^2 = f^2 + h^2.                                                             *)
EXTENDS Pose, TLC, Json
VARIABLES act, body, obs
Rays == {<<1, 0, 0>>, <<3, 4, 0>>, <<1, 2, 2>>, <<2, 3, 6>>, <<4, 4, 7>>, <<1, 4, 8>>, <<2, 6, 9>>, <<6, 6, 7>>, <<3, 4, 12>>, <<2, 5, 14>>}
Speeds == {<<0, 1, 1>>, <<3, 5, 4>>, <<4, 5, 3>>, <<5, 13, 12>>, <<12, 13, 5>>, <<20, 29, 21>>, <<400, 40001, 39999>>, <<40, 401, 399>>,
           <<4000, 4000001, 3999999>>, <<99, 4901, 4900>>}
Far(e) == CHOOSE k \in 0..600 : k * k = Dot(e, e)
Fresh == [e |-> <<1, 0, 0>>, v |-> V0, u |-> V0, spin |-> V0, at |-> 1]
Init == act = [op |-> "init"] /\ body = Fresh /\ obs = [o |-> V0, ax |-> 1, f |-> 0, g |-> 1, h |-> 1]
\* the body: v its own velocity, u that of the frame it is in
Body(c) == act' = c /\ body' = [e |-> c.e, v |-> c.v, u |-> c.u, spin |-> c.spin, at |-> c.at] /\ UNCHANGED obs
Observer(c) == act' = c /\ obs' = [o |-> c.o, ax |-> c.ax, f |-> c.f, g |-> c.g, h |-> c.h] /\ UNCHANGED body

K == Far(body.e)
All == AddV(body.v, body.u)
\* thousandths of light-seconds after s seconds
Placed(s) == AddV(MulS(1000, AddV(obs.o, body.e)), MulS(s - (body.at - K), All))
Turned(s) == Spin(body.spin, s)
Along(ax) == [i \in 1..3 |-> IF i = ax THEN 1 ELSE 0]
\* the direction e/k as seen in motion: [n, d]
Shifted(e, k) ==
    LET a == e[obs.ax]
        d == k * obs.g + a * obs.f
    IN [n |-> [i \in 1..3 |-> IF i = obs.ax THEN a * obs.g + obs.f * k ELSE e[i] * obs.h], d |-> d]
\* as a view in the given mode has it
Look(c) ==
    /\ act' = [c EXCEPT !.res =
           IF c.mode = "true" THEN [at |-> Placed(body.at), far |-> 0, dir |-> [n |-> V0, d |-> 1], m |-> Turned(body.at)]
           ELSE IF c.mode = "geometric" \/ K = 0
                THEN [at |-> MulS(1000, AddV(obs.o, body.e)), far |-> 0, dir |-> [n |-> V0, d |-> 1], m |-> Turned(body.at - K)]
           ELSE [at |-> MulS(1000, obs.o), far |-> K, dir |-> Shifted(body.e, K), m |-> Turned(body.at - K)]]
    /\ UNCHANGED <<body, obs>>
\* a direction without a distance
Ray(c) == act' = [c EXCEPT !.res = Shifted(c.e, Far(c.e))] /\ UNCHANGED <<body, obs>>

Small == obs.g < 100 /\ K <= 100
StaysUnit == Small /\ K > 0 => LET x == Shifted(body.e, K) IN Dot(x.n, x.n) = x.d * x.d
\* towards the motion, and back again when seen from the other side
TurnsForward == Small /\ K > 0 => LET x == Shifted(body.e, K) IN obs.f >= 0 => x.n[obs.ax] * K >= body.e[obs.ax] * x.d
Undone == Small /\ K > 0 =>
    LET x == Shifted(body.e, K)
        a == x.n[obs.ax]
    IN \A i \in 1..3 : (IF i = obs.ax THEN a * obs.g - obs.f * x.d ELSE x.n[i] * obs.h) * K = body.e[i] * (x.d * obs.g - a * obs.f)
=============================================================================
