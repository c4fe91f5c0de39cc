------------------------------- MODULE Sensor -------------------------------
(* Sensors turn the power a frame buffer received into digital numbers.  Light is counted in photons a second, gain in fortieths of an electron a
   number, exposure in eighths of a second, efficiency in quarters, hence electrons in 1/32; a response is an interval <<lo, hi>> of fractions
   <<num, den>> of full scale, a single value without noise.  Sensors 1 and 2 see three channels, sensor 3 adds up eight. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sensors, Buffers, Mono, MonoBuffers
VARIABLES cfg, buf, act
vars == <<cfg, buf, act>>

Huge == 16777216
Cap == 400000000
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
RECURSIVE Bisect(_, _, _)
Bisect(n, a, b) == IF b - a <= 1 THEN b ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN Bisect(n, m, b) ELSE Bisect(n, a, m)
RootUp(n) == Bisect(n, 0, 40000)

Channels(s) == IF s \in Mono THEN 8 ELSE 3
Fresh(s) == [qe |-> [k \in 1..Channels(s) |-> 4], fwc |-> 20000, noise |-> FALSE, read |-> 10, dark |-> 1, bias |-> 10, bits |-> 12, gain |-> 40,
             unity |-> 0, db |-> 0]
(* gain at some number of 20 dB below the reference *)
Tenfold(k) == CASE k = -1 -> 4 [] k = 0 -> 40 [] k = 1 -> 400 [] k = 2 -> 4000
Step(g) == CASE g = 4 -> <<-1>> [] g = 40 -> <<0>> [] g = 400 -> <<1>> [] g = 4000 -> <<2>> [] OTHER -> <<>>
GainDb(c) == [k \in DOMAIN Step(c.gain) |-> c.unity - Step(c.gain)[k]]

(* electrons collected, in 1/32 *)
Electrons(n, t, q) == IF n = Huge THEN (IF t * q > 0 THEN Cap ELSE 0) ELSE n * t * q
RECURSIVE Sum(_, _, _, _)
Sum(p, t, qe, k) == IF k = 0 THEN 0 ELSE Lo(Cap, Electrons(p[k], t, qe[k]) + Sum(p, t, qe, k - 1))
Signals(s, p, t) == IF s \in Mono THEN <<Sum(p, t, cfg[s].qe, 8)>> ELSE [k \in 1..3 |-> Electrons(p[k], t, cfg[s].qe[k])]

Full(c) == 2 ^ c.bits - 1
(* e electrons (1/32) through well, amplifier and converter *)
Converted(c, e, bias) ==
    LET held == Lo(e, 32 * c.fwc)
        num == 5 * held + 4 * c.gain * bias
        den == 4 * c.gain * Full(c)
    IN IF num <= 0 THEN <<0, 1>> ELSE IF num >= den THEN <<1, 1>> ELSE <<num, den>>
Response(c, e, t) ==
    IF ~c.noise THEN <<Converted(c, e, 0), Converted(c, e, 0)>>
    ELSE LET all == Lo(Cap, e + 4 * c.dark * t)
             spread == 8 * 32 * (IF all = 0 /\ c.read = 0 THEN 0 ELSE RootUp(all \div 32 + 1 + c.read * c.read))
         IN <<Converted(c, Hi(all - spread, -Cap), c.bias), Converted(c, Lo(all + spread, 425000000), c.bias)>>
Read(s, b, t) == [i \in DOMAIN buf[b].power |-> LET sig == Signals(s, buf[b].power[i], t) IN [k \in DOMAIN sig |-> Response(cfg[s], sig[k], t)]]

Zero == <<<<0, 1>>, <<0, 1>>>>
Blank(b) == IF b \in MonoBuffers THEN <<Zero>> ELSE <<Zero, Zero, Zero>>
Dark(b) == [k \in 1..(IF b \in MonoBuffers THEN 8 ELSE 3) |-> 0]
Bare == [w |-> 2, h |-> 2, haspower |-> FALSE, hasresp |-> FALSE, power |-> <<>>, resp |-> <<>>, bits |-> 0]
Init == cfg = [s \in Sensors |-> Fresh(s)] /\ buf = [b \in Buffers |-> Bare] /\ act = [op |-> "reset"]

(* any setting; the wrong ones change nothing *)
Set(c) ==
    /\ act' = c
    /\ UNCHANGED buf
    /\ cfg' = (IF c.wrong # "" THEN cfg ELSE
               [cfg EXCEPT ![c.s] = CASE c.what = "db" -> [@ EXCEPT !.gain = Tenfold(cfg[c.s].unity - c.v)]
                                      [] c.what = "unity" -> [@ EXCEPT !.unity = c.v]
                                      [] c.what = "qe" -> [@ EXCEPT !.qe = c.v]
                                      [] c.what = "noise" -> [@ EXCEPT !.noise = c.v]
                                      [] c.what = "fwc" -> [@ EXCEPT !.fwc = c.v]
                                      [] c.what = "read" -> [@ EXCEPT !.read = c.v]
                                      [] c.what = "dark" -> [@ EXCEPT !.dark = c.v]
                                      [] c.what = "bias" -> [@ EXCEPT !.bias = c.v]
                                      [] c.what = "bits" -> [@ EXCEPT !.bits = c.v]
                                      [] c.what = "gain" -> [@ EXCEPT !.gain = c.v]])
(* all settings at once, by exchanging the sensor *)
Replace(c) == act' = c /\ UNCHANGED buf /\ cfg' = [cfg EXCEPT ![c.s] = c.v]

Make(c) == act' = c /\ UNCHANGED cfg /\ buf' = [buf EXCEPT ![c.b] = [Bare EXCEPT !.w = c.w, !.h = c.h]]
Pixels(b) == 1..(buf[b].w * buf[b].h)
Enable(c) ==
    /\ act' = c
    /\ UNCHANGED cfg
    /\ LET on == [i \in Pixels(c.b) |-> Dark(c.b)] IN
       buf' = [buf EXCEPT ![c.b] =
                 IF c.what = "power" THEN
                     IF c.on THEN (IF @.haspower THEN @ ELSE [@ EXCEPT !.haspower = TRUE, !.power = on])
                     ELSE [@ EXCEPT !.haspower = FALSE, !.power = <<>>]
                 ELSE IF ~c.on THEN [@ EXCEPT !.hasresp = FALSE, !.resp = <<>>, !.bits = 0]
                 ELSE LET p == IF @.haspower THEN @ ELSE [@ EXCEPT !.haspower = TRUE, !.power = on]
                      IN IF p.hasresp THEN p ELSE [p EXCEPT !.hasresp = TRUE, !.resp = [i \in Pixels(c.b) |-> Blank(c.b)]]]
Light(c) ==
    /\ act' = c
    /\ UNCHANGED cfg
    /\ buf' = (IF buf[c.b].haspower THEN [buf EXCEPT ![c.b].power = [i \in Pixels(c.b) |-> c.px[1 + ((i - 1) % Len(c.px))]]] ELSE buf)
Spot(c) ==
    /\ act' = c
    /\ UNCHANGED cfg
    /\ buf' = (IF buf[c.b].haspower THEN [buf EXCEPT ![c.b].power[1 + (c.i % (buf[c.b].w * buf[c.b].h))] = c.px] ELSE buf)
Clear(c) ==
    /\ act' = c
    /\ UNCHANGED cfg
    /\ buf' = [buf EXCEPT ![c.b].power = [i \in DOMAIN @ |-> Dark(c.b)], ![c.b].resp = [i \in DOMAIN @ |-> Blank(c.b)]]
Readout(c) ==
    /\ act' = c
    /\ UNCHANGED cfg
    /\ buf' = (IF buf[c.b].haspower /\ buf[c.b].hasresp
               THEN [buf EXCEPT ![c.b].resp = Read(c.s, c.b, c.t), ![c.b].bits = cfg[c.s].bits] ELSE buf)

Seen(c) == IF c.op \in {"set", "replace"} THEN [cfg |-> cfg'[c.s], db |-> GainDb(cfg'[c.s])]
           ELSE IF "b" \in DOMAIN c THEN [power |-> buf'[c.b].power, resp |-> buf'[c.b].resp, bits |-> buf'[c.b].bits] ELSE [none |-> 0]

(* checked by TLC: responses are fractions of full scale; without noise, more light is never less signal and a pixel's response is its own *)
Within == \A b \in Buffers : \A i \in DOMAIN buf[b].resp : \A k \in DOMAIN buf[b].resp[i] :
    LET r == buf[b].resp[i][k] IN /\ 0 <= r[1][1] /\ r[1][1] <= r[1][2] /\ 0 <= r[2][1] /\ r[2][1] <= r[2][2]
Steps == {0, 1, 31, 32, 33, 1000, 99999, 640000, 3200000, 100000000, Cap}
NotGreater(x, y) == IF x = y \/ x[1] = 0 \/ y = <<1, 1>> THEN TRUE ELSE IF x = <<1, 1>> \/ y[1] = 0 THEN FALSE ELSE x[2] = y[2] /\ x[1] <= y[1]
Monotone == act.op = "set" =>
    LET c == [cfg[act.s] EXCEPT !.noise = FALSE]
    IN \A x, y \in Steps : x <= y => NotGreater(Response(c, x, 8)[1], Response(c, y, 8)[1])
=============================================================================
