----------------------------- MODULE Surfaces_G -----------------------------
(* Surfaces taking the steps it is told to. *)
EXTENDS Surfaces, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ shapes' = <<>> /\ bodies' = <<>> /\ frozen' = <<>>
      [] c.op = "mesh" -> Mesh(c) /\ UNCHANGED <<bodies, frozen>>
      [] c.op = "round" -> Round(c) /\ UNCHANGED <<bodies, frozen>>
      [] c.op = "place" -> Place(c)
      [] c.op = "move" -> Move(c)
      [] c.op = "look" -> Look(c)
      [] c.op = "ray" -> Ray(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
=============================================================================
