----------------------------- MODULE SpectralBins -----------------------------
(* Spectral data reduced to wavelength bins. Wavelengths are quarters of a nanometre, values whole
   numbers, so every integral is a sum of exact fractions.                                        *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES act, layout
vars == <<act, layout>>
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Fr(n, d) == [n |-> n, d |-> d]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* The ways a layout is written: a range cut evenly, pairs of edges, or common edges. *)
Layouts == [
    rgb |-> [n |-> 3, args |-> <<600, 750, 500, 600, 380, 500>>],
    visible8 |-> [n |-> 8, args |-> <<380, 750>>],
    swir8 |-> [n |-> 8, args |-> <<900, 2500>>],
    edges |-> [n |-> 3, args |-> <<400, 450, 700, 701>>],
    one |-> [n |-> 1, args |-> <<500, 600>>],
    gaps |-> [n |-> 3, args |-> <<700, 800, 400, 500, 900, 1000>>],
    teal |-> [n |-> 2, args |-> <<400, 500, 590>>],
    fine |-> [n |-> 16, args |-> <<300, 1100>>],
    down |-> [n |-> 2, args |-> <<640, 800, 200, 640>>],
    far |-> [n |-> 2, args |-> <<1000, 1500, 2000>>],
    rim |-> [n |-> 1, args |-> <<720, 1000>>]]
Cut(l) ==
    LET a == l.args IN
    IF Len(a) = 2 THEN [i \in 1..l.n |-> <<4 * a[1] + ((4 * (a[2] - a[1])) * (i - 1)) \div l.n, 4 * a[1] + ((4 * (a[2] - a[1])) * i) \div l.n>>]
    ELSE IF Len(a) = 2 * l.n THEN [i \in 1..l.n |-> <<4 * a[2 * i - 1], 4 * a[2 * i]>>]
    ELSE [i \in 1..l.n |-> <<4 * a[i], 4 * a[i + 1]>>]
Bins == Cut(layout)
Width(b) == b[2] - b[1]
N == layout.n
LoEdge == CHOOSE x \in {Bins[i][1] : i \in 1..N} : \A i \in 1..N : x <= Bins[i][1]
HiEdge == CHOOSE x \in {Bins[i][2] : i \in 1..N} : \A i \in 1..N : x >= Bins[i][2]
Overlap(b, lo, hi) == MaxOf(0, MinOf(b[2], hi) - MaxOf(b[1], lo))

(* ---- sampled data: the curve runs straight from sample to sample *)
Piece(b, w, v, k) ==
    LET lo == MaxOf(b[1], w[k]) hi == MinOf(b[2], w[k + 1]) IN
    IF lo >= hi THEN Fr(0, 1)
    ELSE Fr((hi - lo) * (v[k] * (2 * w[k + 1] - lo - hi) + v[k + 1] * (lo + hi - 2 * w[k])), 2 * (w[k + 1] - w[k]))
(* A bin only partly covered by the samples lies between counting the rest as nothing (integral) and
   holding the outermost samples (left, right); one that is not touched at all is zero.            *)
OfBin(b, w, v) ==
    LET M == Len(w) IN
    [terms |-> [k \in 1..M - 1 |-> Piece(b, w, v, k)], width |-> Width(b),
     left |-> v[1] * Overlap(b, 0, w[1]), right |-> v[M] * Overlap(b, w[M], 2000000),
     touched |-> b[1] <= w[M] /\ w[1] <= b[2]]
Bad == -1999999999     \* stands for not-a-number
Inf == -1999999998
Ascending(w) == /\ \A k \in 1..Len(w) - 1 : w[k] < w[k + 1]
                /\ Len(w) > 1 => \A k \in 1..Len(w) : w[k] # Bad
Data(w, v) ==
    /\ act' = [op |-> "data", w |-> w, v |-> v,
               res |-> IF Len(w) # Len(v) \/ Len(w) = 0 \/ ~Ascending(w) THEN <<>> ELSE [i \in 1..N |-> OfBin(Bins[i], w, v)]]
    /\ UNCHANGED layout

(* ---- totals, sums and bands *)
WidthAll == SumSeq([i \in 1..N |-> Width(Bins[i])])
Total(t) == act' = [op |-> "total", t |-> t, res |-> [i \in 1..N |-> Fr(t * Width(Bins[i]), WidthAll)]] /\ UNCHANGED layout
Real(x) == x # Bad /\ x # Inf
Summary(a) ==
    LET ok == \A i \in 1..N : Real(a[i]) IN
    /\ act' = [op |-> "summary", a |-> a,
               res |-> [valid |-> \A i \in 1..N : Real(a[i]) /\ a[i] >= 0,
                        ratio |-> \A i \in 1..N : Real(a[i]) /\ a[i] >= 0 /\ a[i] <= 8,     \* eighths
                        sums |-> IF ~ok THEN <<>> ELSE
                            <<SumSeq(a), CHOOSE x \in {a[i] : i \in 1..N} : \A i \in 1..N : x >= a[i],
                              CHOOSE x \in {a[i] : i \in 1..N} : \A i \in 1..N : x <= a[i],
                              SumSeq([i \in 1..N |-> a[i] * Width(Bins[i])]), SumSeq([i \in 1..N |-> a[i] * a[i]])>>]]
    /\ UNCHANGED layout
Band(a, lo, hi) ==
    act' = [op |-> "band", a |-> a, lo |-> lo, hi |-> hi, res |-> SumSeq([i \in 1..N |-> a[i] * Overlap(Bins[i], lo, hi)])] /\ UNCHANGED layout

(* ---- element by element *)
Apply(f, x, y) ==
    CASE f = "+" -> Fr(x + y, 1) [] f = "-" -> Fr(x - y, 1) [] f = "*" -> Fr(x * y, 1) [] f = "/" -> Fr(x, y)
(* shape: both arrays, array and number, number and array; eq: the assigning form. *)
Arith(f, shape, eq, a, b) ==
    /\ act' = [op |-> "arith", f |-> f, shape |-> shape, eq |-> eq, a |-> a, b |-> b,
               res |-> [i \in 1..N |-> CASE shape = "aa" -> Apply(f, a[i], b[i]) [] shape = "as" -> Apply(f, a[i], b[1])
                                         [] shape = "sa" -> Apply(f, b[1], a[i]) [] shape = "neg" -> Fr(-a[i], 1)
                                         [] shape = "pos" -> Fr(a[i], 1) [] shape = "sqrt" -> Fr(a[i], 1)]]
    /\ UNCHANGED layout
Same(a, b) == act' = [op |-> "same", a |-> a, b |-> b, res |-> \A i \in 1..N : a[i] = b[i]] /\ UNCHANGED layout
(* A list of numbers: one fills everything, several are taken in order, what is missing is zero. *)
List(a) == act' = [op |-> "list", a |-> a, res |-> [i \in 1..N |-> IF Len(a) = 1 THEN a[1] ELSE IF i <= Len(a) THEN a[i] ELSE 0]]
           /\ UNCHANGED layout

(* ---- a colour in another layout: the mean of the colour's steps over each bin, or a plain grey
   where the layout has less than a tenth of the colour's range.                                  *)
Rgb == Cut(Layouts.rgb)
Colour(c) ==
    LET common == MinOf(HiEdge, 4 * 750) - MaxOf(LoEdge, 4 * 380) IN
    /\ act' = [op |-> "colour", c |-> c,
               res |-> IF layout = Layouts.rgb THEN [i \in 1..3 |-> Fr(c[i], 1)]
                       ELSE IF 10 * common > 4 * 370
                       THEN [i \in 1..N |-> Fr(SumSeq([k \in 1..3 |-> c[k] * Overlap(Rgb[k], Bins[i][1], Bins[i][2])]), Width(Bins[i]))]
                       ELSE [i \in 1..N |-> Fr(c[1] + c[2] + c[3], 3)]]
    /\ UNCHANGED layout

(* ---- a spectrum counted in a unit that is 10^e base units *)
Scaled(a, from, to) == act' = [op |-> "scaled", a |-> a, from |-> from, to |-> to, res |-> [up |-> from - to, base |-> from]] /\ UNCHANGED layout

Edges == act' = [op |-> "edges", res |-> [bins |-> Bins, centre2 |-> [i \in 1..N |-> Bins[i][1] + Bins[i][2]]]] /\ UNCHANGED layout
(* Layouts with empty, inverted or overlapping bins do not exist. *)
Sound(l) == LET c == Cut(l) IN
    /\ \A i \in 1..l.n : c[i][1] < c[i][2]
    /\ \A i, j \in 1..l.n : i # j => (c[i][2] <= c[j][1] \/ c[j][2] <= c[i][1])
Odd == <<[n |-> 2, args |-> <<500, 600, 550, 700>>], [n |-> 2, args |-> <<500, 600, 600, 700>>], [n |-> 1, args |-> <<600, 500>>],
         [n |-> 2, args |-> <<500, 500, 600>>], [n |-> 2, args |-> <<400, 800, 500, 600>>], [n |-> 3, args |-> <<500, 600, 700, 800, 100, 499>>],
         [n |-> 2, args |-> <<600, 500, 400>>], [n |-> 2, args |-> <<500, 600, 300, 501>>], [n |-> 3, args |-> <<10, 20, 30, 40>>]>>
Exists(i) == act' = [op |-> "exists", i |-> i, res |-> Sound(Odd[i])] /\ UNCHANGED layout

Init == act = [op |-> "init"] /\ layout = Layouts.rgb
Take(name) == layout' = Layouts[name] /\ act' = [op |-> "layout", name |-> name]
Obs == <<>>
ASSUME \A k \in DOMAIN Layouts : Sound(Layouts[k])

(* ---- checked on every step: what is spread comes together again, adjoining bands add up *)
SpreadsTotal == act.op = "total" => SumSeq([i \in 1..N |-> act.res[i].n]) = act.t * WidthAll
BandsAdd == act.op = "band" => \A m \in {act.lo, act.hi, (act.lo + act.hi) \div 2, 4 * 600, 4 * 501} :
    (act.lo <= m /\ m <= act.hi) =>
        SumSeq([i \in 1..N |-> act.a[i] * (Overlap(Bins[i], act.lo, m) + Overlap(Bins[i], m, act.hi))]) = act.res
(* A sample put onto a straight piece of the curve changes no integral. *)
RefineSame == (act.op = "data" /\ act.res # <<>>) =>
    \A k \in 1..Len(act.w) - 1 : LET p == act.w[k] q == act.w[k + 1] v == act.v[k] u == act.v[k + 1] IN
        ((p + q) % 2 = 0 /\ (u + v) % 2 = 0 /\ q - p > 1) =>
            LET m == (p + q) \div 2 y == (u + v) \div 2 IN
            \A i \in 1..N :
                LET one == act.res[i].terms[k] l == Piece(Bins[i], <<p, m>>, <<v, y>>, 1) r == Piece(Bins[i], <<m, q>>, <<y, u>>, 1)
                IN one.n = 2 * (l.n + r.n)
===============================================================================
