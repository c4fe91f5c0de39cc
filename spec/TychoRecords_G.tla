--------------------------- MODULE TychoRecords_G ---------------------------
(* TychoRecords taking the steps it is told to. *)
EXTENDS TychoRecords, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> lines' = <<>> /\ act' = c
      [] c.op = "line" -> Line(c.l)
      [] c.op = "read" -> Read(c.which, c.ending, c.last)
      [] c.op = "missing" -> Missing(c.which)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs]))
===============================================================================
