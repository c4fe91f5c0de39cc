----------------------------- MODULE ViewClip_G -----------------------------
(* ViewClip taking the steps it is told to. *)
EXTENDS ViewClip, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> planes' = <<>> /\ act' = c
      [] c.op = "volume" -> Volume(c.planes)
      [] c.op = "point" -> Point(c.p)
      [] c.op = "triangle" -> Triangle(c.tri)
      [] c.op = "arc" -> Arc(c.arc)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs]))
===============================================================================
