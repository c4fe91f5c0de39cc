----------------------------- MODULE ImageAccess -----------------------------
(* Two images: checked access by column and row, by linear index or by a pixel  *)
(* position, copying, and resampling at any position under the three wrap modes *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Sizes,     \* sizes that images are created with, as <<w, h>>
          Vals,      \* pixel values 0..Vals
          Probe      \* how far outside the image access is tried

VARIABLES im, act    \* im[k] = [w, h, px], px row-major
vars == <<im>>

Img(w, h, v) == [w |-> w, h |-> h, px |-> [i \in 1..(w * h) |-> v]]
Empty == [w |-> 0, h |-> 0, px |-> <<>>]

Inside(m, x, y) == x >= 0 /\ y >= 0 /\ x < m.w /\ y < m.h
At(m, x, y) == m.px[y * m.w + x + 1]
Put(m, x, y, v) == [m EXCEPT !.px[y * m.w + x + 1] = v]

\* positions as given by a user in eighths: truncated towards zero
Trunc8(p) == IF p >= 0 THEN p \div 8 ELSE -((-p) \div 8)

Init == im = <<Empty, Empty>> /\ act = [op |-> "init"]

New(k, s, v) == /\ im' = [im EXCEPT ![k] = Img(s[1], s[2], v)]
                /\ act' = [op |-> "new", k |-> k, w |-> s[1], h |-> s[2], v |-> v]
\* how: copied, assigned, moved there and back
Copy(k, how) == /\ im' = [im EXCEPT ![k] = im[3 - k]]
                /\ act' = [op |-> "copy", k |-> k, how |-> how]
Clear(k) == /\ im' = [im EXCEPT ![k] = Empty]
            /\ act' = [op |-> "clear", k |-> k]
Fill(k, v) == /\ im' = [im EXCEPT ![k] = Img(im[k].w, im[k].h, v)]
              /\ act' = [op |-> "fill", k |-> k, v |-> v]

Write(k, x, y, v) ==
    /\ im' = IF Inside(im[k], x, y) THEN [im EXCEPT ![k] = Put(im[k], x, y, v)] ELSE im
    /\ act' = [op |-> "write", k |-> k, x |-> x, y |-> y, v |-> v,
               res |-> IF Inside(im[k], x, y) THEN "ok" ELSE "error"]
Read(k, x, y) ==
    /\ UNCHANGED im
    /\ act' = [op |-> "read", k |-> k, x |-> x, y |-> y,
               res |-> IF Inside(im[k], x, y) THEN <<At(im[k], x, y)>> ELSE "error"]
WriteIndex(k, i, v) ==
    LET ok == i >= 0 /\ i < im[k].w * im[k].h
    IN  /\ im' = IF ok THEN [im EXCEPT ![k].px[i + 1] = v] ELSE im
        /\ act' = [op |-> "write_index", k |-> k, i |-> i, v |-> v, res |-> IF ok THEN "ok" ELSE "error"]
WritePos(k, px, py, v) ==
    LET x == Trunc8(px)
        y == Trunc8(py)
    IN  /\ im' = IF Inside(im[k], x, y) THEN [im EXCEPT ![k] = Put(im[k], x, y, v)] ELSE im
        /\ act' = [op |-> "write_pos", k |-> k, px |-> px, py |-> py, v |-> v,
                   res |-> IF Inside(im[k], x, y) THEN "ok" ELSE "error"]
\* values that are no position at all
WildPos == {"nan_x", "nan_y", "inf_x", "-inf_y", "huge_x", "-huge_y", "min_int", "max_int"}
WriteWild(k, what) ==
    /\ UNCHANGED im
    /\ act' = [op |-> "write_wild", k |-> k, what |-> what, res |-> "error"]

-------------------------------------------------------------------------------
\* Resampling. Texture coordinate 0 is the centre of the first column, 1 that of the last, so a
\* coordinate is a position between columns; here in eighths of a column: p = u * 8 (w - 1).
\* Extending the image by clamping, repeating or mirroring brings p to 0..8(w-1).
Extend(p, n, mode) ==
    CASE n = 0 -> 0
      [] mode = "clamp" -> IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
      [] mode = "repeat" -> p % n
      [] mode = "mirror" -> LET r == p % (2 * n) IN IF r > n THEN 2 * n - r ELSE r

Nearest(m, p, q, mode) ==
    LET X == (Extend(p, 8 * (m.w - 1), mode) + 4) \div 8
        Y == (Extend(q, 8 * (m.h - 1), mode) + 4) \div 8
    IN  At(m, X, Y)

\* 64 times the bilinear value
Bilinear64(m, p, q, mode) ==
    LET P == Extend(p, 8 * (m.w - 1), mode)
        Q == Extend(q, 8 * (m.h - 1), mode)
        x0 == P \div 8
        y0 == Q \div 8
        fx == P % 8
        fy == Q % 8
        \* a neighbour only matters if the position is not on the pixel itself
        x1 == IF fx = 0 THEN x0 ELSE x0 + 1
        y1 == IF fy = 0 THEN y0 ELSE y0 + 1
    IN  At(m, x0, y0) * (8 - fx) * (8 - fy) + At(m, x1, y0) * fx * (8 - fy)
      + At(m, x0, y1) * (8 - fx) * fy + At(m, x1, y1) * fx * fy

Sample(k, p, q, mode) ==
    /\ UNCHANGED im
    /\ act' = [op |-> "sample", k |-> k, p |-> p, q |-> q, mode |-> mode,
               res |-> IF im[k].px = <<>> THEN <<0, 0>>
                       ELSE <<Nearest(im[k], p, q, mode), Bilinear64(im[k], p, q, mode)>>]
\* coordinates that are very large (an even number of widths away) or not finite: the value has to
\* be one the image has; at infinity clamping still means the border
Wild == {"big", "-big", "inf", "-inf", "nan"}
WildCol(u, n, mode) == IF mode = "clamp" /\ u \in {"big", "inf"} THEN n - 1 ELSE 0
SampleWild(k, u, v, mode) ==
    /\ UNCHANGED im
    /\ act' = [op |-> "sample_wild", k |-> k, s |-> u, t |-> v, mode |-> mode,
               res |-> IF im[k].px = <<>> THEN <<0>>
                       ELSE IF (u \in {"big", "-big"} /\ v \in {"big", "-big"}) \/ (mode = "clamp" /\ "nan" \notin {u, v})
                       THEN <<At(im[k], WildCol(u, im[k].w, mode), WildCol(v, im[k].h, mode))>>
                       ELSE "inside"]

Modes == {"clamp", "repeat", "mirror"}

Next ==
    \/ \E k \in 1..2, s \in Sizes, v \in 0..Vals : New(k, s, v)
    \/ \E k \in 1..2, how \in {"construct", "assign", "swap"} : Copy(k, how)
    \/ \E k \in 1..2 : Clear(k)
    \/ \E k \in 1..2, v \in 0..Vals :
          \/ Fill(k, v)
          \/ \E x \in -Probe..(im[k].w + Probe), y \in -Probe..(im[k].h + Probe) :
                Write(k, x, y, v) \/ Read(k, x, y)
          \/ \E i \in -1..(im[k].w * im[k].h + Probe) : WriteIndex(k, i, v)
    \/ \E k \in 1..2, v \in 1..Vals :
          \/ \E px \in {8 * c + d : c \in -Probe..(im[k].w + Probe), d \in {0, 3}},
                py \in {8 * c + d : c \in -Probe..(im[k].h + Probe), d \in {0, 5}} : WritePos(k, px, py, v)
    \/ \E k \in 1..2, what \in WildPos : WriteWild(k, what)
    \/ \E k \in 1..2, mode \in Modes, p \in {-9, -4, 0, 3, 4, 8, 13}, q \in {-8, 4, 9} : Sample(k, p, q, mode)
    \/ \E k \in 1..2, u \in Wild, v \in Wild, mode \in Modes : SampleWild(k, u, v, mode)

-------------------------------------------------------------------------------
TypeOK == \A k \in 1..2 : Len(im[k].px) = im[k].w * im[k].h
\* resampling at pixel centres gives the pixel, whatever the mode, and never leaves the range
AtCentres == \A k \in 1..2 : \A x \in 0..(im[k].w - 1), y \in 0..(im[k].h - 1) : \A mode \in {"clamp", "mirror"} :
    /\ Nearest(im[k], 8 * x, 8 * y, mode) = At(im[k], x, y)
    /\ Bilinear64(im[k], 8 * x, 8 * y, mode) = 64 * At(im[k], x, y)
\* mirroring is even and has twice the period
MirrorEven == \A n \in {8, 16, 24} : \A p \in 0..60 :
    /\ Extend(-p, n, "mirror") = Extend(p, n, "mirror")
    /\ Extend(p + 2 * n, n, "mirror") = Extend(p, n, "mirror")
    /\ Extend(p + n, n, "repeat") = Extend(p, n, "repeat")
ReadsDoNotWrite == [][act'.op \in {"read", "sample", "sample_wild"} => UNCHANGED im]_<<vars, act>>
CopiesIndependent == [][\A k \in 1..2 : (act'.op # "init" /\ act'.k # k) => im'[k] = im[k]]_<<vars, act>>

SmallSizes == {<<2, 1>>}
ASSUME MirrorEven

View == vars
St == vars
Obs == im
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
===============================================================================
