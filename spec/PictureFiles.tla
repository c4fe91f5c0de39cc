----------------------------- MODULE PictureFiles -----------------------------
(* Pictures in memory, written to PNG, TIFF and FITS files and read again.  A value is a fraction <<n, d>>, or <<0, 0>> not a number,
   <<1, 0>> and <<-1, 0>> the infinities, <<2, 0>> anything.  A picture whose values may be off by one level of a file it went through has
   tol > 0: its values are known to 1 / tol. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Files
VARIABLES pics, files, act, res
vars == <<pics, files, act, res>>

Lo(a, b) == IF a < b THEN a ELSE b
NaN == <<0, 0>>
Inf == <<1, 0>>
Anything == <<2, 0>>
Wide == -1
IsNum(v) == v[2] > 0

(* a * b / c, rounded down, and the rest; a, b >= 0 *)
RECURSIVE MulDiv(_, _, _)
MulDiv(a, b, c) ==
    IF b = 0 THEN <<0, 0>>
    ELSE LET half == MulDiv(a, b \div 2, c)
             r == 2 * half[2] + (IF b % 2 = 1 THEN a % c ELSE 0)
             q == 2 * half[1] + (IF b % 2 = 1 THEN a \div c ELSE 0)
         IN <<q + r \div c, r % c>>
Level(v, m) == IF v[1] <= 0 THEN 0 ELSE LET x == MulDiv(v[1], m, v[2]) IN x[1] + (IF 2 * x[2] > v[2] THEN 1 ELSE 0)
(* rounding could go either way *)
Edge(v, m) == IsNum(v) /\ v[1] > 0 /\ LET x == MulDiv(v[1], m, v[2]) IN (2 * x[2] - v[2]) * 50 < v[2] /\ (v[2] - 2 * x[2]) * 50 < v[2]
Smaller(v, w) ==
    IF v[1] < 0 THEN (IF w[1] >= 0 THEN TRUE ELSE MulDiv(0 - w[1], v[2], w[2])[1] < 0 - v[1])
    ELSE w[1] > 0 /\ MulDiv(v[1], w[2], v[2])[1] < w[1]
RECURSIVE Least(_, _)
Least(vs, i) == IF i = Len(vs) THEN vs[i] ELSE LET r == Least(vs, i + 1) IN IF Smaller(r, vs[i]) THEN r ELSE vs[i]
RECURSIVE Most(_, _)
Most(vs, i) == IF i = Len(vs) THEN vs[i] ELSE LET r == Most(vs, i + 1) IN IF Smaller(vs[i], r) THEN r ELSE vs[i]

NoMeta == [text |-> [k \in {"object", "telescop", "instrume", "observer", "date_obs", "origin", "filter", "bunit", "ctype1", "ctype2"} |-> ""],
           num |-> [k \in {"crpix1", "crpix2", "crval1", "crval2", "cdelt1", "cdelt2", "datamin", "datamax"} |-> <<>>],
           exptime |-> "", equinox |-> "2000", radesys |-> "ICRS", sat |-> 0, comments |-> <<>>, history |-> <<>>, custom |-> <<>>]
Plain == [w |-> 0, h |-> 0, px |-> <<>>, alpha |-> <<>>, aw |-> 0, ah |-> 0, space |-> "sRGB", gamma |-> 1, depth |-> 8, bits |-> 0, tol |-> 0, meta |-> NoMeta]
None == [kind |-> "none"]
Kind(f) == IF f \in {1, 2} THEN "png" ELSE IF f \in {3, 4} THEN "tiff" ELSE "fits"

Init == pics = [s \in Slots |-> Plain] /\ files = [f \in Files |-> None] /\ act = [op |-> "reset"] /\ res = TRUE

(*------------------------------------------------------------- PNG and TIFF *)
Kept(v, m) == IF v = Anything \/ v = NaN THEN Anything ELSE IF v = Inf THEN <<m, m>> ELSE IF v[2] = 0 THEN <<0, m>> ELSE <<Lo(Level(v, m), m), m>>
After(p, m, edge) == IF p.tol = 0 /\ ~edge THEN 0 ELSE Lo(IF p.tol = 0 THEN m ELSE p.tol, m) \div 2
AnyEdge(p, m) == \E i \in DOMAIN p.px : \E k \in DOMAIN p.px[i] : Edge(p.px[i][k], m)
AnyAlphaEdge(p, m) == \E i \in DOMAIN p.alpha : Edge(p.alpha[i], m)
Space(p) == IF p.space = "Unknown" THEN "sRGB" ELSE p.space
Grey(px) == IF Len(px) = 3 THEN px ELSE <<px[1], px[1], px[1]>>
Stored(p, kind) ==
    LET m == IF p.depth = 8 THEN 255 ELSE 65535
        masked == p.alpha # <<>> /\ p.aw = p.w /\ p.ah = p.h
    IN [Plain EXCEPT !.w = p.w, !.h = p.h, !.depth = p.depth,
            !.px = [i \in DOMAIN p.px |-> LET c == [k \in DOMAIN p.px[i] |-> Kept(p.px[i][k], m)] IN IF kind = "png" THEN Grey(c) ELSE c],
            !.alpha = IF masked THEN [i \in DOMAIN p.alpha |-> Kept(p.alpha[i], m)] ELSE <<>>,
            !.aw = IF masked THEN p.w ELSE 0, !.ah = IF masked THEN p.h ELSE 0,
            !.space = IF kind = "png" THEN Space(p) ELSE "sRGB", !.gamma = IF kind = "png" /\ p.space = "Gamma" THEN p.gamma ELSE 1,
            !.tol = After(p, m, AnyEdge(p, m) \/ AnyAlphaEdge(p, m))]

(*--------------------------------------------------------------------- FITS *)
FullScale(p, bp) == IF p.meta.sat # 0 THEN p.meta.sat
                    ELSE IF p.bits = 32 THEN Wide ELSE IF p.bits > 0 THEN 2 ^ p.bits - 1
                    ELSE IF bp = 8 THEN 255 ELSE IF bp = 16 THEN 65535 ELSE Wide
BitsOf(m) == CASE m = 255 -> 8 [] m = 1000 -> 10 [] m = 1023 -> 10 [] m = 4095 -> 12 [] m = 16383 -> 14 [] m = 60000 -> 16 [] m = 65535 -> 16
               [] m = 1048575 -> 20 [] m = Wide -> 32
Counted(v, m, low, cap) == IF v = Anything THEN v ELSE IF ~IsNum(v) THEN NaN
                           ELSE LET l == Level(v, m) IN <<Lo(cap, IF l < low THEN low ELSE l), m>>
Whole(v) == IF ~IsNum(v) THEN v ELSE IF v[1] <= 0 THEN <<0, 1>> ELSE IF v[1] >= v[2] THEN <<1, 1>> ELSE v
Ranged(meta, lo, hi) == [meta EXCEPT !.num = [@ EXCEPT !.datamin = IF @ # <<>> THEN @ ELSE lo, !.datamax = IF @ # <<>> THEN @ ELSE hi]]
InSky(m) == \E k \in {"crpix1", "crpix2", "crval1", "crval2", "cdelt1", "cdelt2"} : m.num[k] # <<>>
KeptMeta(m) == LET sky == InSky(m) \/ m.text["ctype1"] # "" \/ m.text["ctype2"] # ""
               IN [m EXCEPT !.equinox = IF sky THEN @ ELSE "2000", !.radesys = IF sky THEN @ ELSE "ICRS"]
Lacking(p) == \E i \in DOMAIN p.px : ~IsNum(p.px[i][1]) /\ p.px[i][1] # Anything
AnyOpen(p) == \E i \in DOMAIN p.px : p.px[i][1] = Anything
Numbers(px) == SelectSeq([i \in DOMAIN px |-> px[i][1]], LAMBDA v : IsNum(v))
Sky(p, bp) ==
    LET m == FullScale(p, bp)
        same == [Plain EXCEPT !.w = p.w, !.h = p.h, !.tol = p.tol]
        low == IF Lacking(p) /\ bp = 8 THEN 1 ELSE 0
        cap == (IF bp = 8 THEN 255 ELSE IF bp = 16 THEN 65535 ELSE 2000000000) - (IF Lacking(p) /\ bp # 8 THEN 1 ELSE 0)
        (* a value that may be undefined decides whether the end of the range is taken *)
        AtRim(v) == AnyOpen(p) /\ ~Lacking(p) /\ IsNum(v) /\ (IF bp = 8 THEN Level(v, m) < 1 ELSE Level(v, m) >= cap)
        px == [i \in DOMAIN p.px |-> <<IF bp < 0 THEN (IF IsNum(p.px[i][1]) \/ p.px[i][1] = NaN THEN p.px[i][1] ELSE Anything)
                                       ELSE IF m = Wide THEN (IF p.px[i][1] = Anything \/ bp # 32 THEN Anything ELSE IF ~IsNum(p.px[i][1]) THEN NaN ELSE Whole(p.px[i][1]))
                                       ELSE IF AtRim(p.px[i][1]) THEN Anything ELSE Counted(p.px[i][1], m, low, cap)>>]
        nums == Numbers(px)
        dim == AnyOpen([px |-> px])
        Auto(v) == IF dim \/ (bp > 0 /\ m = Wide) THEN <<"any">> ELSE IF nums = <<>> THEN <<>> ELSE <<IF bp > 0 THEN <<v[1], 1>> ELSE v, p.tol>>
        meta == KeptMeta(IF bp < 0 THEN p.meta ELSE [p.meta EXCEPT !.sat = m, !.text["bunit"] = IF @ = "" THEN "adu" ELSE @])
    IN [same EXCEPT !.px = px, !.bits = IF bp > 0 THEN BitsOf(m) ELSE 0,
            !.tol = IF bp < 0 \/ m = Wide THEN p.tol ELSE After(p, m, AnyEdge(p, m)),
            !.meta = Ranged(meta, Auto(IF nums = <<>> THEN 0 ELSE Least(nums, 1)), Auto(IF nums = <<>> THEN 0 ELSE Most(nums, 1)))]

Encoded(p, f, bp) == IF Kind(f) = "fits" THEN Sky(p, bp) ELSE Stored(p, Kind(f))
Allowed(p, f, bp) == /\ p.w > 0 /\ p.h > 0
                     /\ IF Kind(f) = "fits" THEN bp \in {8, 16, 32, -32, -64} /\ Len(p.px[1]) = 1 ELSE p.depth \in {8, 16}

Make(c) == act' = c /\ res' = TRUE /\ UNCHANGED files /\ pics' = [pics EXCEPT ![c.s] = c.p]
(* bit depths may be changed between reading and writing *)
Turn(c) == act' = c /\ res' = TRUE /\ UNCHANGED files
           /\ pics' = [pics EXCEPT ![c.s] = [@ EXCEPT !.depth = c.depth, !.bits = c.bits]]
Write(c) ==
    /\ act' = c
    /\ UNCHANGED pics
    /\ LET p == pics[c.s]
       IN IF ~Allowed(p, c.f, c.bp) THEN res' = FALSE /\ UNCHANGED files
          ELSE res' = TRUE /\ files' = [files EXCEPT ![c.f] = [kind |-> Kind(c.f), bp |-> c.bp, pic |-> Encoded(p, c.f, c.bp)]]
(* mean of the channels *)
Mean(px) == IF Len(px) = 1 THEN px ELSE IF \E k \in 1..3 : px[k] = Anything THEN <<Anything>> ELSE <<<<px[1][1] + px[2][1] + px[3][1], 3 * px[1][2]>>>>
Read(c) ==
    /\ act' = c
    /\ UNCHANGED files
    /\ IF files[c.f].kind = "none" THEN res' = FALSE /\ UNCHANGED pics
       ELSE LET q == files[c.f].pic IN
            /\ res' = TRUE
            /\ pics' = [pics EXCEPT ![c.s] = [q EXCEPT !.px = IF Kind(c.f) = "fits" THEN @ ELSE [i \in DOMAIN @ |-> IF c.ch = 1 THEN Mean(@[i]) ELSE Grey(@[i])],
                                                       !.alpha = IF c.alpha THEN @ ELSE <<>>, !.aw = IF c.alpha THEN @ ELSE 0, !.ah = IF c.alpha THEN @ ELSE 0]]

Seen(c) == [res |-> res', p |-> IF c.op = "reset" THEN None ELSE pics'[c.s]]

(* checked by TLC: writing what was read changes nothing more *)
Settled == act.op = "write" /\ res =>
    LET q == files[act.f] IN
    q.pic.tol = 0 =>
        LET again == Encoded(q.pic, act.f, act.bp)
        IN /\ again.px = q.pic.px /\ again.alpha = q.pic.alpha /\ again.meta = q.pic.meta
           /\ again.bits = q.pic.bits /\ again.space = q.pic.space /\ again.depth = q.pic.depth
Ranges == \A f \in Files : files[f].kind \in {"png", "tiff"} =>
    \A i \in DOMAIN files[f].pic.px : \A k \in DOMAIN files[f].pic.px[i] : LET v == files[f].pic.px[i][k] IN v = Anything \/ (0 <= v[1] /\ v[1] <= v[2])
===============================================================================
