------------------------------- MODULE Convolve -------------------------------
(* Convolution of an image with a kernel, zero outside the image, the kernel's  *)
(* centre (its middle element, the later one if it has no middle) on the pixel. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES im, act
vars == <<im>>

\* a picture is [w, h, px]
V(m, x, y) == IF x < 0 \/ y < 0 \/ x >= m.w \/ y >= m.h THEN 0 ELSE m.px[y * m.w + x + 1]

RECURSIVE Sum(_, _, _)
Sum(f, a, b) == IF a > b THEN 0 ELSE f[a] + Sum(f, a + 1, b)

\* result(x, y) = sum over kernel offsets (i, j) from its centre of kernel(i, j) * image(x - i, y - j)
Conv(m, k) ==
    LET cx == k.w \div 2
        cy == k.h \div 2
        N == k.w * k.h
        At(x, y) == Sum([t \in 1..N |->
                           LET i == ((t - 1) % k.w) - cx
                               j == ((t - 1) \div k.w) - cy
                           IN  k.px[t] * V(m, x - i, y - j)], 1, N)
    IN  [m EXCEPT !.px = [t \in 1..(m.w * m.h) |-> At((t - 1) % m.w, (t - 1) \div m.w)]]

Init == im = [w |-> 0, h |-> 0, px |-> <<>>, bits |-> 0] /\ act = [op |-> "init"]

Image(w, h, px, bits) ==
    /\ im' = [w |-> w, h |-> h, px |-> px, bits |-> bits]
    /\ act' = [op |-> "image", w |-> w, h |-> h, px |-> px, bits |-> bits]
Blur(w, h, px) ==
    /\ im' = Conv(im, [w |-> w, h |-> h, px |-> px])
    /\ act' = [op |-> "convolve", w |-> w, h |-> h, px |-> px]
\* with itself as the kernel
BlurSelf == /\ im' = Conv(im, im)
            /\ act' = [op |-> "self"]

-------------------------------------------------------------------------------
\* laws of the definition, on all small pictures
Pics(W, H, S) == {[w |-> w, h |-> h, px |-> p] : w \in {W}, h \in {H}, p \in [1..(W * H) -> S]}
Small == Pics(3, 1, 0..1) \cup Pics(2, 2, 0..1) \cup Pics(1, 3, 0..1)
Kernels == Pics(1, 1, {0, 1, 2}) \cup Pics(2, 1, 0..1) \cup Pics(3, 1, 0..1) \cup Pics(2, 2, {0, 1}) \cup Pics(1, 3, {0, 1})
Delta(w, h) == [w |-> w, h |-> h,
                px |-> [t \in 1..(w * h) |-> IF (t - 1) % w = w \div 2 /\ (t - 1) \div w = h \div 2 THEN 1 ELSE 0]]
Plus(a, b) == [a EXCEPT !.px = [t \in DOMAIN a.px |-> a.px[t] + b.px[t]]]
\* the picture with a border of zeros
Pad(m, d) == [w |-> m.w + 2 * d, h |-> m.h + 2 * d,
              px |-> [t \in 1..((m.w + 2 * d) * (m.h + 2 * d)) |->
                        V(m, ((t - 1) % (m.w + 2 * d)) - d, ((t - 1) \div (m.w + 2 * d)) - d)]]
Total(m) == Sum(m.px, 1, m.w * m.h)
SamePx(a, b) == a.w = b.w /\ a.h = b.h /\ \A t \in 1..(a.w * a.h) : a.px[t] = b.px[t]

DeltaIsIdentity == \A m \in Small : \A w, h \in 1..4 : SamePx(Conv(m, Delta(w, h)), m)
Linear == \A m \in Pics(2, 2, 0..1) : \A a, b \in Pics(2, 2, 0..1) :
             SamePx(Conv(m, Plus(a, b)), Plus(Conv(m, a), Conv(m, b)))
KeepsTotal == \A m \in Small, k \in Kernels : Total(Conv(Pad(m, 3), k)) = Total(m) * Total(k)
\* one after the other in either order, where nothing is cut off
OrderFree == \A m \in Pics(2, 1, 0..2), a \in Pics(3, 1, {0, 1, 3}), b \in Pics(1, 3, {0, 2}) :
             SamePx(Conv(Conv(Pad(m, 3), a), b), Conv(Conv(Pad(m, 3), b), a))
\* the kernel appears unmirrored around a point of light
PointSpread == \A k \in Kernels :
             LET r == Conv(Pad([w |-> 1, h |-> 1, px |-> <<1>>], 4), k)
             IN  \A i \in 0..(k.w - 1), j \in 0..(k.h - 1) :
                    V(r, 4 + i - k.w \div 2, 4 + j - k.h \div 2) = V(k, i, j)
ASSUME DeltaIsIdentity
ASSUME Linear
ASSUME KeepsTotal
ASSUME OrderFree
ASSUME PointSpread

KeepsShape == [][act'.op \in {"convolve", "self"} => im'.w = im.w /\ im'.h = im.h /\ im'.bits = im.bits]_<<vars, act>>

Obs == im
View == vars
St == vars
===============================================================================
