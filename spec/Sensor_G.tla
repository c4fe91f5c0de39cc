------------------------------ MODULE Sensor_G ------------------------------
(* Sensor taking the steps it is told to. *)
EXTENDS Sensor, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ cfg' = [s \in Sensors |-> Fresh(s)] /\ buf' = [b \in Buffers |-> Bare]
      [] c.op = "set" -> Set(c)
      [] c.op = "replace" -> Replace(c)
      [] c.op = "make" -> Make(c)
      [] c.op = "enable" -> Enable(c)
      [] c.op = "light" -> Light(c)
      [] c.op = "spot" -> Spot(c)
      [] c.op = "clear" -> Clear(c)
      [] c.op = "readout" -> Readout(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Seen(act')]))
=============================================================================
