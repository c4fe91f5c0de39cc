----------------------------- MODULE Brightness -----------------------------
(* How bright lamps are, and bodies too small to be resolved.  Places in steps of a length u, spectra in quarters, either one total for all bands
   (shared out by their widths) or a value per band.  Brightness as a fraction num / (den[1] * den[2]) of a spectrum, times powers of pi and u and a function
   of the angle lamp - body - observer, which is told by its products (dot, and squares aa, bb). *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES lamps, things, act
vars == <<lamps, things, act>>
Init == lamps = <<>> /\ things = <<>> /\ act = [op |-> "reset"]

Sub(a, b) == [k \in 1..3 |-> a[k] - b[k]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sq(a) == Dot(a, a)
(* no negative light *)
Sane(s) == \A i \in DOMAIN s.v : s.v[i] >= 0

Dark(s) == [num |-> 0, den |-> <<1, 1>>, pi |-> 0, u |-> 0, s |-> s, law |-> "none", dot |-> 0, aa |-> 1, bb |-> 1, d2 |-> 1]
(* what a lamp brings to a place: of its power, or of the radiance of its surface *)
Lit(l, at) ==
    LET d2 == Sq(Sub(l.at, at)) IN
    IF d2 <= l.r * l.r THEN Dark(l.s)
    ELSE IF l.how = "power" THEN [Dark(l.s) EXCEPT !.num = 1, !.den = <<4, d2>>, !.pi = -1, !.u = -2]
    ELSE [Dark(l.s) EXCEPT !.num = l.r * l.r, !.den = <<1, d2>>, !.pi = 1]
(* and its surface seen from anywhere *)
Surface(l) == IF l.how = "power" THEN [Dark(l.s) EXCEPT !.num = 1, !.den = <<4, l.r * l.r>>, !.pi = -2, !.u = -2] ELSE [Dark(l.s) EXCEPT !.num = 1]

(* what a thing sends to the eye *)
Sent(o, eye) ==
    LET d2 == Sq(Sub(o.at, eye)) IN
    CASE o.kind = "fixed" -> [Dark(o.s) EXCEPT !.num = 1]
      [] o.kind = "emit" -> [Dark(o.s) EXCEPT !.num = 1, !.den = <<4, d2>>, !.pi = -1, !.u = -2]
      [] o.kind \in {"ball", "rock"} ->
         LET l == lamps[o.lamp] a == Sub(l.at, o.at) b == Sub(eye, o.at) e == Lit(l, o.at) IN
         IF o.kind = "ball"   \* alb (quarters) * 2/3 * R^2 / d^2
         THEN [e EXCEPT !.num = @ * 2 * o.alb * o.r * o.r, !.den = <<@[1] * 12 * d2, @[2]>>, !.law = "lambert", !.dot = Dot(a, b), !.aa = Sq(a), !.bb = d2]
         ELSE [Dark(l.s) EXCEPT !.num = 1, !.law = "hg", !.dot = Dot(a, b), !.aa = Sq(a), !.bb = d2]

Good(o) == CASE o.kind \in {"fixed", "emit"} -> Sane(o.s)
             [] o.kind = "ball" -> o.r > 0 /\ o.alb \in 0..4 /\ o.lamp > 0
             [] OTHER -> o.alb \in 0..4 /\ o.lamp > 0
Lamp(c) == /\ act' = [c EXCEPT !.ok = (c.l.how = "power" /\ c.l.s.tot) => Sane(c.l.s)]
           /\ lamps' = IF act'.ok THEN Append(lamps, c.l) ELSE lamps
           /\ UNCHANGED things
Thing(c) == /\ act' = [c EXCEPT !.ok = Good(c.o)]
            /\ things' = IF act'.ok THEN Append(things, c.o) ELSE things
            /\ UNCHANGED lamps
(* a change that is refused changes nothing *)
Set(c) == /\ act' = [c EXCEPT !.ok = Sane(c.s)]
          /\ things' = IF act'.ok THEN [things EXCEPT ![c.i].s = c.s] ELSE things
          /\ UNCHANGED lamps
See(c) == act' = [c EXCEPT !.res = [i \in DOMAIN things |-> Sent(things[i], c.eye)]] /\ UNCHANGED <<lamps, things>>
(* a lamp asked from a place: what it brings, its surface, and whether and how wide it is seen *)
Ask(c) == LET l == lamps[c.i] IN
          /\ act' = [c EXCEPT !.res = [lit |-> Lit(l, c.at), face |-> Surface(l), r |-> l.r, d2 |-> Sq(Sub(l.at, c.at)), to |-> Sub(l.at, c.at)]]
          /\ UNCHANGED <<lamps, things>>

(* checked by TLC *)
Moved(l, by) == [l EXCEPT !.at = Sub(@, by)]
Same(x, y) == x.num = y.num /\ x.den[1] * x.den[2] = y.den[1] * y.den[2] /\ x.dot = y.dot /\ x.aa = y.aa /\ x.bb = y.bb
(* where the origin is does not matter, nor does a mirror *)
Anywhere == act.op = "ask" => \A by \in {<<1, 0, 0>>, <<3, -2, 5>>} : Lit(Moved(lamps[act.i], by), Sub(act.at, by)) = act.res.lit
(* outside, a lamp of some power is as bright as a point of that power, whatever its size *)
AsPoint == act.op = "ask" /\ lamps[act.i].how = "power" /\ act.res.lit.num # 0 =>
    LET p == Sent([kind |-> "emit", at |-> lamps[act.i].at, s |-> lamps[act.i].s], act.at) IN p = act.res.lit
(* a lamp is all it is seen as: surface times the sine squared of its half width (times pi) *)
AsSurface == act.op = "ask" /\ act.res.lit.num # 0 =>
    LET f == act.res.face IN /\ act.res.lit.pi = f.pi + 1
                             /\ act.res.lit.u = f.u
                             /\ lamps[act.i].how = "rad" => act.res.lit.num = f.num * act.res.r * act.res.r
(* angles are angles, and the lamp and the eye see a body from the same side alike *)
Angles == act.op = "see" => \A i \in DOMAIN things : LET e == act.res[i] IN
    e.law # "none" => /\ (e.dot \div 1) <= e.aa + e.bb
                      /\ (Sub(lamps[things[i].lamp].at, act.eye) = <<0, 0, 0>> => e.dot = e.aa /\ e.aa = e.bb)
=============================================================================
