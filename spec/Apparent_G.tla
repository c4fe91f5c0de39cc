----------------------------- MODULE Apparent_G -----------------------------
(* Apparent taking the steps it is told to. *)
EXTENDS Apparent, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ body' = Fresh /\ obs' = [o |-> V0, ax |-> 1, f |-> 0, g |-> 1, h |-> 1]
      [] c.op = "body" -> Body(c)
      [] c.op = "observer" -> Observer(c)
      [] c.op = "look" -> Look(c)
      [] c.op = "ray" -> Ray(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
=============================================================================
