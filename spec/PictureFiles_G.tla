--------------------------- MODULE PictureFiles_G ---------------------------
(* PictureFiles taking the steps it is told to. *)
EXTENDS PictureFiles, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ res' = TRUE /\ pics' = [s \in Slots |-> Plain] /\ files' = [f \in Files |-> None]
      [] c.op = "make" -> Make(c)
      [] c.op = "turn" -> Turn(c)
      [] c.op = "write" -> Write(c)
      [] c.op = "read" -> Read(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Seen(act')]))
=============================================================================
