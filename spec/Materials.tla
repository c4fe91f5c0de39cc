------------------------------ MODULE Materials ------------------------------
(* A material: each optical channel has a picture and a factor; what the channel evaluates to is
   their product. Pictures are named by small numbers, 0 being the built-in one; what a picture
   holds at the place looked at is given here. Colours are one number per wavelength bin. Values
   and factors are eighths.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chan,       \* the channels played with
          Pics,       \* pictures that may be put on
          Facts       \* factors that may be set (indices into Fact)
VARIABLES pic, fact, bsdf, last, act
vars == <<pic, fact, bsdf, last>>

All == {"albedo", "alpha", "metallic", "roughness", "normal", "transmission", "emissive"}
Colours == {"albedo", "transmission", "emissive"}
Fact == <<0, 8, 4, 2, 16>>
Colour(f) == IF f = 1 THEN <<0, 0, 0>> ELSE <<Fact[f], Fact[f] - 1, 3>>
Default(c) == IF c \in {"metallic", "transmission", "emissive"} THEN 0 ELSE 8
DefaultFact(c) == IF c \in Colours THEN <<Default(c), Default(c), Default(c)>> ELSE Default(c)
Zero(c) == IF c \in Colours THEN <<0, 0, 0>> ELSE 0
One(c) == IF c \in Colours THEN <<8, 8, 8>> ELSE 8
FactOf(c, f) == IF c \in Colours THEN Colour(f) ELSE Fact[f]

(* pictures: a colour, a grey value, a direction - each two pixels wide: left and right *)
PicColour == [p \in 0..2 |-> CASE p = 0 -> <<<<8, 8, 8>>, <<8, 8, 8>>>> [] p = 1 -> <<<<1, 2, 3>>, <<7, 0, 8>>>> [] OTHER -> <<<<8, 6, 4>>, <<0, 0, 1>>>>]
PicGrey == [p \in 0..2 |-> CASE p = 0 -> <<8, 8>> [] p = 1 -> <<3, 8>> [] OTHER -> <<0, 5>>]
PicNormal == [p \in 0..2 |-> CASE p = 0 -> <<<<0, 0, 1>>, <<0, 0, 1>>>> [] p = 1 -> <<<<3, 0, 4>>, <<0, -3, 4>>>> [] OTHER -> <<<<-4, 0, 3>>, <<2, 2, 1>>>>]

(* what the ways of scattering light look at *)
Bsdfs == {"cook_torrance", "lambertian", "oren_nayar", "hapke", "mcewen", "lommel_seeliger"}
Looks(b) == {"albedo", "alpha", "normal", "transmission", "emissive"}
            \cup (IF b = "cook_torrance" THEN {"metallic", "roughness"} ELSE IF b = "oren_nayar" THEN {"roughness"} ELSE {})

Init == /\ pic = [c \in All |-> 0] /\ fact = [c \in All |-> DefaultFact(c)] /\ bsdf = "cook_torrance" /\ last = "none"
        /\ act = [op |-> "init"]

SetPic(c, p) ==
    /\ pic' = [pic EXCEPT ![c] = p]
    /\ fact' = [fact EXCEPT ![c] = IF c \in {"metallic", "transmission", "emissive"} /\ @ = Zero(c) THEN One(c) ELSE @]
    /\ last' = c /\ act' = [op |-> "pic", c |-> c, px |-> IF c \in Colours THEN PicColour[p] ELSE IF c = "normal" THEN PicNormal[p] ELSE PicGrey[p], res |-> "ok"] /\ UNCHANGED bsdf
SetFact(c, f) ==
    /\ fact' = [fact EXCEPT ![c] = FactOf(c, f)] /\ last' = c
    /\ act' = [op |-> "factor", c |-> c, f |-> FactOf(c, f), res |-> "ok"] /\ UNCHANGED <<pic, bsdf>>
Reset(c) ==
    /\ pic' = [pic EXCEPT ![c] = 0] /\ fact' = [fact EXCEPT ![c] = DefaultFact(c)] /\ last' = c
    /\ act' = [op |-> "default", c |-> c, res |-> "ok"] /\ UNCHANGED bsdf
SetBsdf(b) == /\ bsdf' = b /\ last' = "none" /\ act' = [op |-> "bsdf", b |-> b, res |-> "ok"] /\ UNCHANGED <<pic, fact>>
(* What is not there or not in the scene any more cannot be put on. *)
Refuse(c, how) == /\ last' = "none" /\ act' = [op |-> "refused", c |-> c, how |-> how, res |-> "error"] /\ UNCHANGED <<pic, fact, bsdf>>

Next == \/ \E c \in Chan : \E p \in Pics : SetPic(c, p)
        \/ \E c \in Chan : \E f \in Facts : SetFact(c, f)
        \/ \E c \in Chan : Reset(c) \/ Refuse(c, "deleted")
        \/ \E b \in Bsdfs : SetBsdf(b)
        \/ Refuse("bsdf", "null")

(* ---- what can be seen, at the left and the right pixel, for a surface of colour `vertex`.
   64ths for grey values and 512ths for the colours on the surface's own.                    *)
Vertex == <<8, 4, 2>>
Shown(c, s) ==
    IF c \notin Looks(bsdf) THEN <<>>
    ELSE CASE c = "albedo" -> [i \in 1..3 |-> PicColour[pic[c]][s][i] * fact[c][i] * Vertex[i]]
           [] c \in {"transmission", "emissive"} -> [i \in 1..3 |-> PicColour[pic[c]][s][i] * fact[c][i]]
           [] c = "normal" -> LET n == PicNormal[pic[c]][s] IN <<n[1] * fact[c], n[2] * fact[c], n[3] * 8>>
           [] OTHER -> <<PicGrey[pic[c]][s] * fact[c]>>
Seen == [c \in All |-> <<Shown(c, 1), Shown(c, 2)>>]
Opaque == \A s \in 1..2 : Shown("alpha", s)[1] >= 64
Obs == [seen |-> Seen, opaque |-> Opaque]

Independent == [][\A c \in All : c # last' => pic'[c] = pic[c] /\ fact'[c] = fact[c]]_vars
ResetIsFresh == act.op = "default" => pic[act.c] = 0 /\ fact[act.c] = DefaultFact(act.c)
Visible == act.op = "pic" => (act.c \in {"metallic", "transmission", "emissive"} => fact[act.c] # Zero(act.c))

View == <<pic, fact, bsdf>>
St == View
Emit == PrintT(ToJson([f |-> St, a |-> act', t |-> St', o |-> Obs']))
SimEmit == PrintT(ToJson([lv |-> TLCGet("level"), a |-> act, o |-> Obs]))
===============================================================================
