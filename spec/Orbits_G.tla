------------------------------ MODULE Orbits_G ------------------------------
(* Orbits taking the steps it is told to. *)
EXTENDS Orbits, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ node' = [i \in Nodes |-> Resting]
      [] c.op = "orbit" -> Orbit(c)
      [] c.op = "rest" -> Settle(c)
      [] c.op = "see" -> See(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
=============================================================================
