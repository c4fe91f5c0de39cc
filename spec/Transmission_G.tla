--------------------------- MODULE Transmission_G ---------------------------
(* Transmission taking the steps it is told to. *)
EXTENDS Transmission, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ bodies' = <<>> /\ frozen' = <<>>
      [] c.op = "put" -> Put(c)
      [] c.op = "freeze" -> Freeze(c)
      [] c.op = "ask" -> Ask(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
=============================================================================
