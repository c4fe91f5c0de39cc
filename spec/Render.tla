------------------------------- MODULE Render -------------------------------
(* Rendering frozen views of a scene: opaque rectangles before a uniform background, point-like sources and one that moves during the exposure.
   Positions are in 1/32 pixel from the upper left corner of the image; pixel (x, y) covers x..x+1, y..y+1.  A render gives every pixel of every
   output its own value, whatever the buffer held and however the work is spread over threads. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Views, Buffers
VARIABLES cam, scene, view, buf, done, act
vars == <<cam, scene, view, buf, done, act>>

NoScene == [src |-> <<>>, quads |-> <<>>, sky |-> 0, lamp |-> FALSE]
Closed == [open |-> FALSE, s |-> NoScene]
Bare == [w |-> 0, h |-> 0, outs |-> {}]
Init == cam = [w |-> 1, h |-> 1, blur |-> 0, turn |-> 0, glare |-> 0] /\ scene = NoScene /\ view = [v \in Views |-> Closed]
        /\ buf = [b \in Buffers |-> Bare] /\ done = <<>> /\ act = [op |-> "reset"]

Start(c) == act' = c /\ cam' = [w |-> c.w, h |-> c.h, blur |-> c.blur, turn |-> c.turn, glare |-> 0] /\ scene' = [NoScene EXCEPT !.sky = c.sky, !.lamp = c.lamp]
            /\ view' = [v \in Views |-> Closed] /\ buf' = [b \in Buffers |-> Bare] /\ done' = <<>>
Source(c) == act' = c /\ scene' = [scene EXCEPT !.src = Append(@, [kind |-> c.kind, x |-> c.x, y |-> c.y, tox |-> c.tox, toy |-> c.toy, far |-> c.far, b |-> c.b, dim |-> c.dim])]
             /\ UNCHANGED <<cam, view, buf, done>>
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Drop(c) == act' = c /\ scene' = (IF c.k <= Len(scene.src) THEN [scene EXCEPT !.src = Without(@, c.k)] ELSE scene) /\ UNCHANGED <<cam, view, buf, done>>
Quad(c) == act' = c /\ scene' = [scene EXCEPT !.quads = Append(@, [x0 |-> c.x0, x1 |-> c.x1, y0 |-> c.y0, y1 |-> c.y1, d |-> c.d])]
           /\ UNCHANGED <<cam, view, buf, done>>
Glare(c) == act' = c /\ cam' = [cam EXCEPT !.glare = c.k] /\ UNCHANGED <<scene, view, buf, done>>
Look(c) == act' = c /\ view' = [view EXCEPT ![c.v] = [open |-> TRUE, s |-> scene]] /\ done' = SelectSeq(done, LAMBDA d : d.v # c.v) /\ UNCHANGED <<cam, scene, buf>>
Buffer(c) == act' = c /\ buf' = [buf EXCEPT ![c.b] = [w |-> c.w, h |-> c.h, outs |-> {c.outs[k] : k \in DOMAIN c.outs}]] /\ UNCHANGED <<cam, scene, view, done>>
Smear(c) == act' = c /\ UNCHANGED <<cam, scene, view, buf, done>>

(* the nearest rectangle over a pixel, or 0 *)
Over(s, x, y) == {k \in DOMAIN s.quads : s.quads[k].x0 <= x /\ x < s.quads[k].x1 /\ s.quads[k].y0 <= y /\ y < s.quads[k].y1}
Owner(s, x, y) == LET o == Over(s, x, y) IN IF o = {} THEN 0 ELSE CHOOSE k \in o : \A j \in o : s.quads[k].d <= s.quads[j].d
Inside(x, y) == 0 <= x /\ x < 32 * cam.w /\ 0 <= y /\ y < 32 * cam.h
(* hidden by something nearer; stars (far = 0) are behind everything *)
Hidden(s, x, y, far) == LET o == Owner(s, x, y) IN o # 0 /\ (far = 0 \/ s.quads[o].d < far)
Seen(s, p) == Inside(p.x, p.y) /\ ~Hidden(s, p.x \div 32, p.y \div 32, p.far)

(* where its blur goes: the pixel whose centre is next to the left and top of the source, and the kernel for the offset from there *)
Banks == CASE cam.blur = 0 -> 1 [] cam.blur = 1 -> 4 [] cam.blur = 2 -> 2 [] cam.blur = 3 -> 16 [] cam.blur = 4 -> 8
Stamp(p) == IF cam.blur = 0 THEN <<p.x \div 32, p.y \div 32, 0, 0, p.b, p.x, p.y, p.dim>>
            ELSE <<(p.x - 16) \div 32, (p.y - 16) \div 32, (((p.x - 16) % 32) * Banks) \div 32, (((p.y - 16) % 32) * Banks) \div 32, p.b, p.x, p.y, p.dim>>
Still(s) == SelectSeq(s.src, LAMBDA p : p.kind # "mover")
RECURSIVE Stamps(_, _, _)
Stamps(s, ps, k) == IF k = 0 THEN <<>> ELSE Stamps(s, ps, k - 1) \o (IF Seen(s, ps[k]) THEN <<Stamp(ps[k])>> ELSE <<>>)

(* shares of a source that moves along a row or a column: the time it spends over each pixel *)
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Along(p) == IF p.y = p.toy THEN "x" ELSE "y"
Share(s, p, i) ==
    LET a == IF Along(p) = "x" THEN Lo(p.x, p.tox) ELSE Lo(p.y, p.toy)
        b == IF Along(p) = "x" THEN Hi(p.x, p.tox) ELSE Hi(p.y, p.toy)
        over == Hi(0, Lo(b, 32 * (i + 1)) - Hi(a, 32 * i))
        cross == IF Along(p) = "x" THEN p.y ELSE p.x
        ok == IF Along(p) = "x" THEN Inside(32 * i, cross) /\ ~Hidden(s, i, cross \div 32, p.far) ELSE Inside(cross, 32 * i) /\ ~Hidden(s, cross \div 32, i, p.far)
    IN IF ok THEN over ELSE 0
Trail(s, p) == [axis |-> Along(p), cross |-> (IF Along(p) = "x" THEN p.y ELSE p.x) \div 32, b |-> p.b,
                len |-> (IF Along(p) = "x" THEN Hi(p.x, p.tox) - Lo(p.x, p.tox) ELSE Hi(p.y, p.toy) - Lo(p.y, p.toy)),
                share |-> [i \in 1..(IF Along(p) = "x" THEN cam.w ELSE cam.h) |-> Share(s, p, i - 1)]]
Trails(s) == LET m == SelectSeq(s.src, LAMBDA p : p.kind = "mover") IN [k \in DOMAIN m |-> Trail(s, m[k])]

Facing == CASE cam.turn = 0 -> <<0, 0, -1>> [] cam.turn = 1 -> <<0, 1, 0>> [] cam.turn = 2 -> <<-1, 0, 0>> [] cam.turn = 3 -> <<0, 0, -1>>
Picture(s) == [owner |-> [y \in 1..cam.h |-> [x \in 1..cam.w |-> Owner(s, x - 1, y - 1)]], depth |-> [k \in DOMAIN s.quads |-> s.quads[k].d],
               stamps |-> Stamps(s, Still(s), Len(Still(s))), trails |-> Trails(s), sky |-> s.sky, lamp |-> s.lamp, glare |-> cam.glare, facing |-> Facing]
(* an earlier render of the same view with the same settings *)
Same(c) == {k \in DOMAIN done : done[k].v = c.v /\ done[k].spp = c.spp /\ done[k].bounces = c.bounces /\ done[k].glare = cam.glare}
Render(c) ==
    LET fits == view[c.v].open /\ buf[c.b].w = cam.w /\ buf[c.b].h = cam.h
    IN /\ IF ~fits THEN act' = [c EXCEPT !.want = [refused |-> TRUE]] /\ done' = done
          ELSE /\ act' = [c EXCEPT !.want = [refused |-> FALSE, outs |-> buf[c.b].outs, pic |-> Picture(view[c.v].s),
                                            like |-> IF Same(c) = {} THEN 0 ELSE done[CHOOSE k \in Same(c) : TRUE].id]]
               /\ done' = IF Same(c) # {} THEN done ELSE Append(done, [v |-> c.v, spp |-> c.spp, bounces |-> c.bounces, glare |-> cam.glare, id |-> c.id])
       /\ UNCHANGED <<cam, scene, view, buf>>

(* checked by TLC: a source is drawn at most once and where it is; a moving source gives no more than its light, all of it when nothing is in the way *)
Conserve == act.op = "render" /\ ~act.want.refused =>
    LET w == act.want.pic
        RECURSIVE Sum(_, _)
        Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
    IN /\ Len(w.stamps) <= Len(view[act.v].s.src)
       /\ \A k \in DOMAIN w.stamps : LET t == w.stamps[k] IN /\ w.owner[1 + (t[7] \div 32)][1 + (t[6] \div 32)] = 0 \/ \E p \in {view[act.v].s.src[j] : j \in DOMAIN view[act.v].s.src} : p.x = t[6] /\ p.far > 0
                                                             /\ t[1] \in {t[6] \div 32, t[6] \div 32 - 1} /\ t[2] \in {t[7] \div 32, t[7] \div 32 - 1}
       /\ \A k \in DOMAIN w.trails : Sum(w.trails[k].share, Len(w.trails[k].share)) <= w.trails[k].len
=============================================================================
