------------------------------ MODULE Render_G ------------------------------
(* Render taking the steps it is told to. *)
EXTENDS Render, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ cam' = [w |-> 1, h |-> 1, blur |-> 0, turn |-> 0, glare |-> 0] /\ scene' = NoScene
                           /\ view' = [v \in Views |-> Closed] /\ buf' = [b \in Buffers |-> Bare] /\ done' = <<>>
      [] c.op = "start" -> Start(c)
      [] c.op = "source" -> Source(c)
      [] c.op = "drop" -> Drop(c)
      [] c.op = "quad" -> Quad(c)
      [] c.op = "glare" -> Glare(c)
      [] c.op = "look" -> Look(c)
      [] c.op = "buffer" -> Buffer(c)
      [] c.op = "smear" -> Smear(c)
      [] c.op = "render" -> Render(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
=============================================================================
