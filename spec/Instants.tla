------------------------------ MODULE Instants ------------------------------
(* Times and intervals. An instant is a moment of barycentric dynamical time  *)
(* (TDB): days since the noon that begins 2000-01-01.5, milliseconds and       *)
(* microseconds. The other scales are TT = TDB less a yearly wave of up to     *)
(* 1.7 ms, TAI = TT - 32.184 s, and UTC = TAI less the leap seconds. Registers *)
(* hold times made in every way the library offers; an interval has two ends.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Regs
VARIABLES act, reg, span

\* -- moments as [d, ms, us]
DayMs == 86400000
Norm(d, m, u) == LET m1 == m + u \div 1000 IN [d |-> d + m1 \div DayMs, ms |-> m1 % DayMs, us |-> u % 1000]
Plus(a, b) == Norm(a.d + b.d, a.ms + b.ms, a.us + b.us)
Minus(a, b) == Norm(a.d - b.d, a.ms - b.ms, a.us - b.us)
Neg(a) == Minus([d |-> 0, ms |-> 0, us |-> 0], a)
Before(a, b) == LET x == Minus(a, b) IN x.d < 0
Zero == [d |-> 0, ms |-> 0, us |-> 0]
Half(a) == LET odd == a.d % 2 IN Norm(a.d \div 2, (a.ms + odd * DayMs) \div 2, ((a.ms % 2) * 1000 + a.us) \div 2)
\* n of a unit
Units == [ms |-> 1, s |-> 1000, min |-> 60000, h |-> 3600000]
Span(n, u) == IF u = "d" THEN [d |-> n, ms |-> 0, us |-> 0] ELSE Norm(0, n * Units[u], 0)

\* -- the calendar
DayOf(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy % 400
        doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
    IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 730425
\* midnight of the calendar day, from noon of 2000-01-01
Midnight(day) == [d |-> day - 1, ms |-> DayMs \div 2, us |-> 0]

\* -- scales
Sin600(x) == \* 600 sin, of thousandths of a degree
    LET y == (x % 360000) \div 100
        z == IF y < 1800 THEN y ELSE y - 1800
        p == z * (1800 - z)
        v == (2400 * p) \div (4050000 - p)
    IN IF y < 1800 THEN v ELSE -v
Wave(a) == \* TDB - TT in microseconds
    LET m == 357525 + 985 * a.d + (600 * a.d) \div 1000 + (985 * (a.ms \div 86400)) \div 1000
        e == m + (957 * Sin600(m)) \div 600
    IN (1657 * Sin600(e)) \div 600
Us(n) == Norm(0, 0, n)
TtOffset == Norm(0, 32184, 0)
Leap(y, m, n) == [at |-> Midnight(DayOf(y, m, 1)), n |-> n]
LeapTable == {Leap(1972, 1, 10), Leap(1980, 1, 19), Leap(1990, 1, 25), Leap(1999, 1, 32), Leap(2006, 1, 33),
              Leap(2009, 1, 34), Leap(2012, 7, 35), Leap(2015, 7, 36), Leap(2017, 1, 37)}
LeapCounts == {9} \union {l.n : l \in LeapTable}
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
LeapsAt(utc) == Greatest({9} \union {l.n : l \in {k \in LeapTable : ~Before(utc, k.at)}})
Secs(n) == Norm(0, 1000 * n, 0)
\* within ten seconds of a leap second, where the conversions cannot be told apart
NearLeap(tdb) == \E l \in LeapTable : LET x == Plus(Minus(Minus(Minus(tdb, l.at), TtOffset), Secs(l.n)), Secs(10)) IN x.d = 0 /\ x.ms <= 20000
Scales == {"UTC", "TAI", "TT", "TDB"}
To(scale, tdb) ==
    LET tt == Minus(tdb, Us(Wave(tdb)))
        tai == Minus(tt, TtOffset)
    IN CASE scale = "TDB" -> tdb
         [] scale = "TT" -> tt
         [] scale = "TAI" -> tai
         [] scale = "UTC" -> (LET fits == {n \in LeapCounts : LeapsAt(Minus(tai, Secs(n))) = n} IN Minus(tai, Secs(IF fits = {} THEN 0 ELSE Greatest(fits))))
From(scale, x) ==
    LET tai == IF scale = "UTC" THEN Plus(x, Secs(LeapsAt(x))) ELSE x
        tt == IF scale = "TT" THEN x ELSE Plus(tai, TtOffset)
    IN IF scale = "TDB" THEN x ELSE Plus(tt, Us(Wave(tt)))

\* -- actions
Init == act = [op |-> "init"] /\ reg = [r \in Regs |-> Zero] /\ span = <<Zero, Zero>>
Made(c, r, t) == act' = c /\ reg' = [reg EXCEPT ![r] = t] /\ UNCHANGED span
Text(c) == Made(c, c.r, From("UTC", Plus(Midnight(DayOf(c.y, c.m, c.d)), [d |-> 0, ms |-> c.ms, us |-> 0])))
Julian(c) == Made(c, c.r, From(c.scale, [d |-> c.d, ms |-> c.ms, us |-> 0]))
Ephemeris(c) == Made(c, c.r, [d |-> c.d, ms |-> c.ms, us |-> 0])
Offset(c) == Made([c EXCEPT !.res = Span(c.n, c.u)], c.q, Plus(reg[c.r], Span(c.n, c.u)))
Copy(c) == Made(c, c.q, reg[c.r])
\* a text that is no date: refused, nothing changes
Bad(c) == act' = [c EXCEPT !.res = "error"] /\ UNCHANGED <<reg, span>>
See(c) ==
    /\ act' = [c EXCEPT !.res = [near |-> NearLeap(reg[c.r]),
                                 at |-> [s \in Scales |-> To(s, reg[c.r])]]]
    /\ UNCHANGED <<reg, span>>
Compare(c) == act' = [c EXCEPT !.res = Minus(reg[c.a], reg[c.b])] /\ UNCHANGED <<reg, span>>
Ends(c) ==
    LET n == Span(c.n, c.u) IN
    CASE c.how = "start" -> <<reg[c.a], Plus(reg[c.a], n)>>
      [] c.how = "centre" -> <<Minus(reg[c.a], Half(n)), Plus(reg[c.a], Half(n))>>
      [] c.how = "bounds" -> <<reg[c.a], reg[c.b]>>
Between(s) == Minus(s[2], s[1])
Interval(c) ==
    /\ span' = Ends(c)
    /\ act' = [c EXCEPT !.res = [start |-> Ends(c)[1], end |-> Ends(c)[2], long |-> Between(Ends(c)),
                                 mid |-> Plus(Ends(c)[1], Half(Between(Ends(c)))), exact |-> c.how # "bounds"]]
    /\ UNCHANGED reg
\* where the samples lie, as fractions of the interval
Fractions(k) == IF k = 1 THEN <<<<1, 2>>>> ELSE [i \in 1..k |-> <<i - 1, k - 1>>]
Samples(c) ==
    /\ act' = [c EXCEPT !.res = IF c.k = 0 THEN "error" ELSE [long |-> Between(span), start |-> span[1], at |-> Fractions(c.k)]]
    /\ UNCHANGED <<reg, span>>

\* -- what has to be true of the specification itself
Close(a, b) == LET x == Plus(Minus(a, b), Us(10)) IN x.d = 0 /\ x.ms = 0 /\ x.us <= 20
ScalesInvert == \A r \in Regs, s \in Scales : NearLeap(reg[r]) \/ Close(From(s, To(s, reg[r])), reg[r])
Arithmetic == \A r, q \in Regs : /\ Plus(reg[q], Minus(reg[r], reg[q])) = reg[r]
                                 /\ Before(reg[r], reg[q]) = Before(Neg(reg[q]), Neg(reg[r]))
HalvesMeet == LET h == Half(Between(span)) IN Close(Plus(h, h), Between(span))
=============================================================================
