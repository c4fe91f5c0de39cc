---------------------------- MODULE Brightness_G ----------------------------
(* Brightness taking the steps it is told to. *)
EXTENDS Brightness, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ lamps' = <<>> /\ things' = <<>>
      [] c.op = "begin" -> act' = c /\ UNCHANGED <<lamps, things>>
      [] c.op = "lamp" -> Lamp(c)
      [] c.op = "thing" -> Thing(c)
      [] c.op = "set" -> Set(c)
      [] c.op = "see" -> See(c)
      [] c.op = "ask" -> Ask(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
=============================================================================
