---------------------------- MODULE Transmission ----------------------------
(* What is left of light that has gone a way through matter.  Along one line, in half metres: bodies with two faces or one (a sheet), their surface either
   an open hull (opacity 0), or passing on a power of two of each colour (-1: nothing), filled with a medium or else with nothing (which displaces a medium around), some of them moving during the
   exposure.  Bodies have even coordinates, ways start and end on odd ones.  The way is inside the medium it entered last and has not left.
   What is left of a colour is 2^-halves * exp(-depth / 80), or nothing. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES bodies, frozen, act
vars == <<bodies, frozen, act>>
Init == bodies = <<>> /\ frozen = <<>> /\ act = [op |-> "reset"]

At(b, q) == b.mv * q
Faces(b, q) == IF b.kind = "lamp" THEN {} ELSE IF b.kind = "sheet" THEN {b.lo + At(b, q)} ELSE {b.lo + At(b, q), b.hi + At(b, q)}
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : \A y \in S : x.d <= y.d IN <<e>> \o InOrder(S \ {e})
Ahead(x, dir, len, q) == InOrder({e \in UNION {{[d |-> dir * (f - x), b |-> i] : f \in Faces(frozen[i], q)} : i \in DOMAIN frozen} : e.d > 0 /\ e.d < len})

Filled(i) == frozen[i].kind # "lamp"
Ext(i) == IF frozen[i].ext = <<>> THEN <<0, 0, 0>> ELSE frozen[i].ext
Without(s, i) == SelectSeq(s, LAMBDA j : j # i)
Toggle(s, i) == IF ~Filled(i) THEN s ELSE IF \E k \in DOMAIN s : s[k] = i THEN Without(s, i) ELSE Append(s, i)
RECURSIVE Entered(_, _)
Entered(s, in) == IF in = <<>> THEN s ELSE Entered(Toggle(s, Head(in)), Tail(in))

Whole == [halves |-> <<0, 0, 0>>, depth |-> <<0, 0, 0>>]
Nothing == <<-1, -1, -1>>
Soaked(st, s, far) == IF s = <<>> THEN st ELSE [st EXCEPT !.depth = [k \in 1..3 |-> @[k] + Ext(s[Len(s)])[k] * far]]
Crossed(st, b) == IF b.open THEN st
                  ELSE [st EXCEPT !.halves = [k \in 1..3 |-> IF @[k] < 0 \/ b.pass[k] < 0 THEN -1 ELSE @[k] + b.pass[k]]]
RECURSIVE Way(_, _, _, _, _)
Way(es, at, len, s, st) ==
    IF es = <<>> THEN [st |-> Soaked(st, s, len - at), in |-> s]
    ELSE LET e == Head(es) IN Way(Tail(es), e.d, len, Toggle(s, e.b), Crossed(Soaked(st, s, e.d - at), frozen[e.b]))
Left(x, dir, len, q, in) == Way(Ahead(x, dir, len, q), 0, len, Entered(<<>>, in), Whole)
Told(r) == [k \in 1..3 |-> IF r.st.halves[k] < 0 THEN <<>> ELSE <<r.st.halves[k], r.st.depth[k]>>]

Put(c) == act' = c /\ bodies' = Append(bodies, c.b) /\ UNCHANGED frozen
Freeze(c) == act' = c /\ frozen' = bodies /\ UNCHANGED bodies
Ask(c) == act' = [c EXCEPT !.res = Told(Left(c.x, c.dir, c.len, c.q, c.in))] /\ UNCHANGED <<bodies, frozen>>

(* checked by TLC *)
Sum(a, b) == [k \in 1..3 |-> IF a.st.halves[k] < 0 \/ b.st.halves[k] < 0 THEN <<>>
                             ELSE <<a.st.halves[k] + b.st.halves[k], a.st.depth[k] + b.st.depth[k]>>]
(* a way is as good as its two parts *)
InParts == act.op = "ask" => \A m \in {k \in {2, 6, 14} : k < act.len} :
    LET a == Left(act.x, act.dir, m, act.q, act.in) IN Sum(a, Left(act.x + act.dir * m, act.dir, act.len - m, act.q, a.in)) = act.res
(* between nested or separate bodies the way back is as good as the way there *)
Nested(q) == \A i, j \in DOMAIN frozen : i # j =>
    LET a == frozen[i] b == frozen[j] IN
    \/ a.kind = "lamp" \/ b.kind = "lamp"
    \/ a.kind # "sheet" /\ b.kind # "sheet" /\ (\/ a.hi + At(a, q) < b.lo + At(b, q) \/ b.hi + At(b, q) < a.lo + At(a, q)
                                                \/ (a.lo + At(a, q) < b.lo + At(b, q) /\ b.hi + At(b, q) < a.hi + At(a, q))
                                                \/ (b.lo + At(b, q) < a.lo + At(a, q) /\ a.hi + At(a, q) < b.hi + At(b, q)))
BackAgain == act.op = "ask" /\ act.true /\ Nested(act.q) =>
    LET there == Left(act.x, act.dir, act.len, act.q, act.in)
    IN Told(Left(act.x + act.dir * act.len, -act.dir, act.len, act.q, there.in)) = act.res
=============================================================================
