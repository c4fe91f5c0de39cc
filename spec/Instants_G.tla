----------------------------- MODULE Instants_G -----------------------------
(* Instants taking the steps it is told to. *)
EXTENDS Instants, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ reg' = [r \in Regs |-> Zero] /\ span' = <<Zero, Zero>>
      [] c.op = "text" -> Text(c)
      [] c.op \in {"jd", "mjd"} -> Julian(c)
      [] c.op = "et" -> Ephemeris(c)
      [] c.op = "plus" -> Offset(c)
      [] c.op = "copy" -> Copy(c)
      [] c.op = "bad" -> Bad(c)
      [] c.op = "see" -> See(c)
      [] c.op = "compare" -> Compare(c)
      [] c.op = "interval" -> Interval(c)
      [] c.op = "samples" -> Samples(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
=============================================================================
