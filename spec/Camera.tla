------------------------------- MODULE Camera -------------------------------
(* A camera: settings arriving in any order, some of them refused, and what    *)
(* follows from the final ones. Lengths are in micrometres (focus in           *)
(* millimetres), the principal point in half pixels, lens coefficients in      *)
(* sixteenths; points are given by eighths of their depth.                     *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES act, s
NoLens == [kind |-> "none", k |-> <<>>]
NoBlur == [kind |-> "none", r |-> 0, b |-> 0, f |-> 0, d |-> 0]
Start == [f |-> 50000, w |-> 1024, h |-> 1024, px |-> 17, py |-> 17, cx |-> 1024, cy |-> 1024, unit |-> 2,   \* pitch px / unit
          lens |-> NoLens, flip |-> FALSE, dn |-> 500000, dd |-> 28, focus |-> <<0, 0>>, blur |-> NoBlur]
Init == act = [op |-> "init"] /\ s = Start
Ok(c, t) == act' = [c EXCEPT !.res = "ok"] /\ s' = t
No(c) == act' = [c EXCEPT !.res = "error"] /\ UNCHANGED s
\* -- settings; a value of 0 or below, or one marked bad (not a number), is refused
Focal(c) == IF c.f <= 0 \/ c.bad THEN No(c) ELSE Ok(c, [s EXCEPT !.f = c.f])
Middle(w, c) == IF c = -1 THEN w ELSE c
Sensor(c) ==
    IF c.w < 0 \/ c.h < 0 \/ c.px <= 0 \/ c.py <= 0 \/ c.bad THEN No(c)
    ELSE Ok(c, [s EXCEPT !.w = c.w, !.h = c.h, !.px = c.px, !.py = c.py, !.unit = 1, !.cx = Middle(c.w, c.cx), !.cy = Middle(c.h, c.cy)])
\* the same by the size of the whole sensor (w * px, h * py)
Size(c) == Sensor(c)
\* by the focal length in pixels, the pitch following from the one in micrometres
Matrix(c) == IF c.fx <= 0 \/ c.fy <= 0 \/ c.f <= 0 \/ c.bad \/ c.w < 0 \/ c.h < 0 THEN No(c)
             ELSE Ok(c, [s EXCEPT !.w = c.w, !.h = c.h, !.f = c.f, !.px = c.f \div c.fx, !.py = c.f \div c.fy, !.unit = 1, !.cx = c.cx, !.cy = c.cy])
Lens(c) == Ok(c, [s EXCEPT !.lens = [kind |-> c.kind, k |-> c.k]])
Unlens(c) == Ok(c, [s EXCEPT !.lens = NoLens])
Flip(c) == Ok(c, [s EXCEPT !.flip = c.on])
Stop(c) == Ok(c, [s EXCEPT !.dn = s.f, !.dd = c.n])
Aperture(c) == Ok(c, [s EXCEPT !.dn = c.d, !.dd = 1])
Focus(c) == IF c.mm = 0 \/ c.bad THEN No(c) ELSE Ok(c, [s EXCEPT !.focus = <<c.mm, 1>>])
Diopters(c) == Ok(c, [s EXCEPT !.focus = IF c.n = 0 THEN <<0, 0>> ELSE <<1000, c.n>>])
Blur(c) == Ok(c, [s EXCEPT !.blur = [kind |-> "aperture", r |-> c.r, b |-> c.b, f |-> 0, d |-> 0]])
OwnBlur(c) == Ok(c, [s EXCEPT !.blur = [kind |-> "own", r |-> c.r, b |-> c.b, f |-> c.f, d |-> c.d]])
Unblur(c) == Ok(c, [s EXCEPT !.blur = NoBlur])
\* -- the lens, at a / 8, b / 8: the place it moves to is x[1] / x[2] + x[3] / (8 * 64 * 64 * 16)
Brown(k, a, b) ==
    LET R == a * a + b * b
        n == 16 * 64 * 64 * 64 + k[1] * R * 64 * 64 + k[2] * R * R * 64 + k[3] * R * R * R
        d == 16 * 64 * 64 * 64
    IN <<a * n, 8 * d, (2 * k[4] * a * b + k[5] * (R + 2 * a * a)) * 8 * 64,
         b * n, 8 * d, (2 * k[5] * a * b + k[4] * (R + 2 * b * b)) * 8 * 64>>
OpenCv(k, a, b) ==
    LET R == a * a + b * b
        Poly(i) == 16 * 64 * 64 * 64 + k[i] * R * 64 * 64 + k[i + 1] * R * R * 64 + k[i + 2] * R * R * R
        n == Poly(1)
        d == Poly(4)
        prism(i) == (k[i] * R * 64 + k[i + 1] * R * R) * 8
    IN <<a * n, 8 * d, (2 * k[7] * a * b + k[8] * (R + 2 * a * a)) * 8 * 64 + prism(9),
         b * n, 8 * d, (2 * k[8] * a * b + k[7] * (R + 2 * b * b)) * 8 * 64 + prism(11)>>
Owen(k, a, b, r) ==
    LET R == a * a + b * b
        m == k[2] * R * 64 + k[4] * R * R + k[5] * b * 512 + k[6] * a * 512    \* of 16 * 64 * 64
        t == k[1] * r * 512 + k[3] * r * R * 8                                \* of 16 * 64 * 64
    IN <<a, 8, m * a - t * b, b, 8, m * b + t * a>>
Moved(a, b, r) ==
    CASE s.lens.kind = "none" -> <<a, 8, 0, b, 8, 0>>
      [] s.lens.kind = "brown" -> Brown(s.lens.k, a, b)
      [] s.lens.kind = "opencv" -> OpenCv(s.lens.k, a, b)
      [] s.lens.kind = "owen" -> Owen(s.lens.k, a, b, r)
\* where a point shows: x is fx[1] / fx[2] times the moved place plus cx / 2
Project(c) == /\ act' = [c EXCEPT !.res = [m |-> Moved(c.a, c.b, c.r), fx |-> <<s.f * s.unit, s.px>>, fy |-> <<s.f * s.unit, s.py>>,
                                           cx |-> s.cx, cy |-> s.cy, w |-> s.w, h |-> s.h, lens |-> s.lens.kind, flip |-> s.flip]]
              /\ UNCHANGED s
\* a ray through a place on the sensor comes from the points that show there
Cast(c) == /\ act' = [c EXCEPT !.res = [x |-> c.x, y |-> c.y, fx |-> <<s.f * s.unit, s.px>>, fy |-> <<s.f * s.unit, s.py>>,
                                        cx |-> s.cx, cy |-> s.cy, w |-> s.w, h |-> s.h, lens |-> s.lens.kind, flip |-> s.flip]]
           /\ UNCHANGED s
\* everything that can be asked for, as a new camera with these settings gives it
See(c) == act' = [c EXCEPT !.res = s] /\ UNCHANGED s
=============================================================================
