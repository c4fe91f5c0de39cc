----------------------------- MODULE Decoders_G -----------------------------
(* Decoders reading the bytes it is given. *)
EXTENDS Decoders, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) == IF c.op = "reset" THEN act' = c /\ ans' = Reject ELSE Read(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> ans']))
=============================================================================
