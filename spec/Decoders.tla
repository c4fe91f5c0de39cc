------------------------------- MODULE Decoders -------------------------------
(* What a sequence of bytes is, read as BMP, Targa or Radiance HDR: a picture (rows from the top, pixels from the left, <<r, g, b>> or
   <<r, g, b, a>>; for HDR the three mantissas and the exponent), nothing ("reject"), or something the format leaves open ("open", any
   answer but a crash).  Bytes are numbered from 0 as in the format descriptions. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES act, ans
vars == <<act, ans>>

Most == 2147483647
At(b, i) == b[i + 1]
U16(b, i) == At(b, i) + 256 * At(b, i + 1)
U32(b, i) == IF At(b, i + 3) >= 128 THEN Most ELSE At(b, i) + 256 * At(b, i + 1) + 65536 * At(b, i + 2) + 16777216 * At(b, i + 3)
S32(b, i) == At(b, i) + 256 * At(b, i + 1) + 65536 * At(b, i + 2) + 16777216 * (IF At(b, i + 3) >= 128 THEN At(b, i + 3) - 256 ELSE At(b, i + 3))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Cut(b, i, n) == [k \in 1..n |-> At(b, i + k - 1)]

Reject == [res |-> "reject"]
Open == [res |-> "open"]
Picture(w, h, alpha, px) == [res |-> "picture", w |-> w, h |-> h, alpha |-> alpha, px |-> px]
(* the picture of w by h pixels whose pixel in column x of row y is F(x, y) *)
Painted(w, h, alpha, F(_, _)) == Picture(w, h, alpha, [i \in 1..(w * h) |-> F((i - 1) % w, (i - 1) \div w)])

(*----------------------------------------------------------------------- BMP *)
Bmp(b) ==
    LET n == Len(b)
        dib == U32(b, 14)
        off == U32(b, 10)
        w == S32(b, 18)
        h == S32(b, 22)
        bits == U16(b, 28)
        comp == U32(b, 30)
        size == bits \div 8
        stride == ((w * size + 3) \div 4) * 4
        Masks == Cut(b, 54, 12) = <<0, 0, 255, 0, 0, 255, 0, 0, 255, 0, 0, 0>>
        Pixel(x, y) == LET p == off + stride * (IF h > 0 THEN h - 1 - y ELSE y) + x * size
                           rgb == <<At(b, p + 2), At(b, p + 1), At(b, p)>>
                       IN IF size = 4 THEN rgb \o <<At(b, p + 3)>> ELSE rgb
    IN IF n < 54 \/ At(b, 0) # 66 \/ At(b, 1) # 77 THEN Reject
       ELSE IF dib < 40 \/ dib > n - 14 \/ bits \notin {24, 32} \/ comp \notin {0, 3} THEN Reject
       ELSE IF comp = 3 /\ (bits # 32 \/ n < 66) THEN Reject
       ELSE IF comp = 3 /\ ~Masks THEN Reject
       ELSE IF w <= 0 \/ w > n \/ h = 0 \/ h < 0 - n \/ h > n THEN Reject
       ELSE IF off < 14 + dib \/ off > n \/ stride * Abs(h) > n - off THEN Reject
       ELSE Painted(w, Abs(h), size = 4, Pixel)

(*-------------------------------------------------------------------- Targa *)
(* n pixels of the given size from packets: a sequence of pixels, "short" or "over" (past the end of the image) *)
RECURSIVE Unpack(_, _, _, _, _)
Unpack(b, pos, n, size, acc) ==
    IF Len(acc) = n THEN <<"done", acc>>
    ELSE IF pos >= Len(b) THEN <<"short">>
    ELSE LET head == At(b, pos)
             k == (head % 128) + 1
             room == n - Len(acc)
         IN IF head >= 128
            THEN IF pos + 1 + size > Len(b) THEN <<"short">>
                 ELSE IF k > room THEN <<"over">>
                 ELSE Unpack(b, pos + 1 + size, n, size, acc \o [i \in 1..k |-> Cut(b, pos + 1, size)])
            ELSE IF pos + 1 + k * size > Len(b) THEN <<"short">>
                 ELSE IF k > room THEN <<"over">>
                 ELSE Unpack(b, pos + 1 + k * size, n, size, acc \o [i \in 1..k |-> Cut(b, pos + 1 + (i - 1) * size, size)])
(* fewest bytes n pixels can take in packets *)
Fewest(n, size) == ((n + 127) \div 128) * (1 + size)

Tga(b) ==
    LET n == Len(b)
        kind == At(b, 2)
        mapped == kind \in {1, 9}
        gray == kind \in {3, 11}
        packed == kind \in {9, 10, 11}
        first == U16(b, 3)
        cnt == U16(b, 5)
        esize == At(b, 7)
        depth == At(b, 16)
        w == U16(b, 12)
        h == U16(b, 14)
        fromtop == (At(b, 17) \div 32) % 2 = 1
        fromright == (At(b, 17) \div 16) % 2 = 1
        hasmap == At(b, 1) = 1 /\ cnt > 0
        ebytes == (esize + 7) \div 8
        map == 18 + At(b, 0)
        data == IF hasmap THEN map + cnt * ebytes ELSE map
        size == depth \div 8
        raw == IF packed THEN Unpack(b, data, w * h, size, <<>>)
               ELSE IF w * h * size > n - data THEN <<"short">>
               ELSE <<"done", [i \in 1..(w * h) |-> Cut(b, data + (i - 1) * size, size)]>>
        Colour(c) == IF Len(c) = 4 THEN <<c[3], c[2], c[1], c[4]>> ELSE <<c[3], c[2], c[1]>>
        Index(c) == IF Len(c) = 2 THEN c[1] + 256 * c[2] ELSE c[1]
        Resolved(c) == IF mapped THEN Colour(Cut(b, map + (Index(c) - first) * ebytes, ebytes)) ELSE IF gray THEN <<c[1], c[1], c[1]>> ELSE Colour(c)
        Pixel(x, y) == Resolved(raw[2][(IF fromtop THEN y ELSE h - 1 - y) * w + (IF fromright THEN w - 1 - x ELSE x) + 1])
    IN IF n < 18 THEN Reject
       ELSE IF kind \notin {1, 2, 3, 9, 10, 11} \/ data > n THEN Reject
       ELSE IF mapped /\ (~hasmap \/ depth \notin {8, 16} \/ esize \notin {24, 32}) THEN Reject
       ELSE IF gray /\ depth # 8 THEN Reject
       ELSE IF kind \in {2, 10} /\ depth \notin {24, 32} THEN Reject
       ELSE IF w = 0 \/ h = 0 THEN Open
       ELSE IF w > n * 128 \/ h > n * 128 \/ h > (n * 128) \div w THEN Reject
       ELSE IF packed /\ Fewest(w * h, size) > n - data THEN Reject
       ELSE IF raw[1] = "short" THEN Reject
       ELSE IF raw[1] = "over" THEN Open
       ELSE IF mapped /\ \E i \in 1..(w * h) : Index(raw[2][i]) < first \/ Index(raw[2][i]) >= first + cnt THEN Reject
       ELSE Painted(w, h, IF mapped THEN esize = 32 ELSE depth = 32, Pixel)

(*---------------------------------------------------------------- Radiance *)
(* a line: <<bytes, where the next one starts>>, <<>> at the end *)
RECURSIVE EndOf(_, _)
EndOf(b, i) == IF i >= Len(b) \/ At(b, i) \in {10, 13} THEN i ELSE EndOf(b, i + 1)
Line(b, i) ==
    IF i >= Len(b) THEN <<>>
    ELSE LET e == EndOf(b, i) IN
         <<Cut(b, i, e - i), IF e + 1 < Len(b) /\ At(b, e) = 13 /\ At(b, e + 1) = 10 THEN e + 2 ELSE e + 1>>
(* the lines up to the empty one, and where the next starts *)
RECURSIVE Header(_, _, _)
HeadOf(b) == Header(b, 0, <<>>)
Header(b, i, acc) ==
    LET l == Line(b, i) IN
    IF l = <<>> THEN <<acc, Len(b)>> ELSE IF l[1] = <<>> THEN <<acc, l[2]>> ELSE Header(b, l[2], Append(acc, l[1]))
RECURSIVE Words(_, _)
Words(l, acc) ==
    IF l = <<>> THEN acc
    ELSE IF l[1] \in {9, 11, 12, 32} THEN Words(Tail(l), Append(acc, <<>>))
    ELSE Words(Tail(l), [acc EXCEPT ![Len(acc)] = Append(@, l[1])])
Digits(s) == \A i \in DOMAIN s : s[i] \in 48..57
TooLarge(s) == Len(s) > 9 /\ Digits(s) /\ s[1] # 48
IsNumber(s) == s # <<>> /\ Len(s) <= 9 /\ \A i \in DOMAIN s : s[i] \in 48..57
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
Contains(l, part) == \E i \in 0..(Len(l) - Len(part)) : SubSeq(l, i + 1, i + Len(part)) = part
XYZE == <<51, 50, 45, 98, 105, 116, 95, 114, 108, 101, 95, 120, 121, 122, 101>>

(* one of the four planes of a run-length encoded scanline *)
RECURSIVE Plane(_, _, _, _)
Plane(b, i, w, acc) ==
    IF Len(acc) = w THEN <<"done", acc, i>>
    ELSE IF i >= Len(b) THEN <<"short">>
    ELSE LET k == At(b, i) IN
         IF k = 0 THEN <<"open">>
         ELSE IF k > 128 THEN
             IF i + 1 >= Len(b) \/ k - 128 > w - Len(acc) THEN <<"short">>
             ELSE Plane(b, i + 2, w, acc \o [j \in 1..(k - 128) |-> At(b, i + 1)])
         ELSE IF k > w - Len(acc) \/ i + k >= Len(b) THEN <<"short">>
         ELSE Plane(b, i + 1 + k, w, acc \o Cut(b, i + 1, k))
RECURSIVE Planes(_, _, _, _)
Planes(b, i, w, acc) ==
    IF Len(acc) = 4 THEN <<"done", [x \in 1..w |-> <<acc[1][x], acc[2][x], acc[3][x], acc[4][x]>>], i>>
    ELSE LET p == Plane(b, i, w, <<>>) IN IF p[1] # "done" THEN p ELSE Planes(b, p[3], w, Append(acc, p[2]))
(* pixels one after the other; <<1, 1, 1, n>> repeats the last *)
RECURSIVE Flat(_, _, _, _, _)
Flat(b, i, w, acc, scale) ==
    IF Len(acc) = w THEN <<"done", acc, i>>
    ELSE IF i + 4 > Len(b) THEN <<"short">>
    ELSE LET p == Cut(b, i, 4) IN
         IF SubSeq(p, 1, 3) = <<1, 1, 1>> THEN
             IF acc = <<>> THEN <<"short">>
             ELSE IF scale > 256 THEN <<"open">>
             ELSE IF p[4] * scale > w - Len(acc) THEN <<"short">>
             ELSE Flat(b, i + 4, w, acc \o [j \in 1..(p[4] * scale) |-> acc[Len(acc)]], scale * 256)
         ELSE Flat(b, i + 4, w, Append(acc, p), 1)
Scanline(b, i, w) ==
    IF i + 4 > Len(b) THEN <<"short">>
    ELSE IF At(b, i) = 2 /\ At(b, i + 1) = 2 /\ At(b, i + 2) < 128 /\ w >= 8 /\ w <= 32767
         THEN IF 256 * At(b, i + 2) + At(b, i + 3) = w THEN Planes(b, i + 4, w, <<>>) ELSE <<"open">>
         ELSE Flat(b, i, w, <<>>, 1)
RECURSIVE Scanlines(_, _, _, _, _)
Scanlines(b, i, w, h, acc) ==
    IF Len(acc) = h THEN <<"done", acc>>
    ELSE LET s == Scanline(b, i, w) IN IF s[1] # "done" THEN s ELSE Scanlines(b, s[3], w, h, Append(acc, s[2]))

Hdr(b) ==
    LET top == HeadOf(b)
        size == Line(b, top[2])
        ws == SelectSeq(Words(size[1], <<<<>>>>), LAMBDA x : x # <<>>)
        h == Number(ws[2])
        w == Number(ws[4])
        rows == Scanlines(b, size[2], w, h, <<>>)
        Pixel(x, y) == rows[2][IF ws[1][1] = 43 THEN h - y ELSE y + 1][IF ws[3][1] = 45 THEN w - x ELSE x + 1]
    IN IF Len(b) < 2 THEN Reject
       ELSE IF At(b, 0) # 35 \/ At(b, 1) # 63 THEN Reject
       ELSE IF \E i \in DOMAIN top[1] : Contains(top[1][i], XYZE) THEN Reject
       ELSE IF size = <<>> THEN Reject
       ELSE IF Len(ws) < 4 THEN (IF \E i \in DOMAIN ws : Len(ws[i]) > 2 /\ ws[i][1] \in {43, 45} /\ ws[i][2] \in {88, 89} THEN Open ELSE Reject)
       ELSE IF ws[1] \notin {<<43, 89>>, <<45, 89>>} \/ ws[3] \notin {<<43, 88>>, <<45, 88>>} THEN Reject
       ELSE IF ~IsNumber(ws[2]) \/ ~IsNumber(ws[4]) THEN (IF TooLarge(ws[2]) \/ TooLarge(ws[4]) \/ ws[2][1] = 45 \/ ws[4][1] = 45 THEN Reject ELSE Open)
       ELSE IF Len(ws) > 4 THEN Open
       ELSE IF w = 0 \/ h = 0 \/ h > Len(b) \/ w > 30000000 THEN Reject
       ELSE IF rows[1] = "short" THEN Reject
       ELSE IF rows[1] = "open" THEN Open
       ELSE Painted(w, h, FALSE, Pixel)

Decode(fmt, b) == CASE fmt = "bmp" -> Bmp(b) [] fmt = "tga" -> Tga(b) [] fmt = "hdr" -> Hdr(b)

Init == act = [op |-> "reset"] /\ ans = Reject
Read(c) == act' = c /\ ans' = (IF c.via = "unknown" THEN Reject ELSE Decode(c.fmt, c.b))

(* checked by TLC: a picture has all its pixels; reading what an encoder wrote gives what it was given; what is cut short is no picture *)
Whole == ans.res = "picture" => Len(ans.px) = ans.w * ans.h /\ \A i \in DOMAIN ans.px : Len(ans.px[i]) \in {3, 4}
Agree == act.op = "read" =>
    /\ act.pic # <<>> => ans = [res |-> "picture", w |-> act.pic[1], h |-> act.pic[2], alpha |-> act.pic[3], px |-> act.pic[4]]
    /\ act.short => ans.res = "reject"
===============================================================================
