---------------------------- MODULE SceneFreeze_G ----------------------------
(* SceneFreeze taking the steps it is told to. *)
EXTENDS SceneFreeze, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> /\ node' = <<New(0, "", V0)>> /\ live' = {1} /\ assets' = Bodies \cup Cameras
                           /\ sensor' = [q \in Cameras |-> 0] /\ views' = [v \in Slots |-> <<>>] /\ act' = c
      [] c.op = "place" -> Place(c.i, c.x, c.y)
      [] c.op = "set" -> Set(c.i, c.x, c.y)
      [] c.op = "remove" -> Remove(c.i)
      [] c.op = "drop" -> Drop(c.x)
      [] c.op = "sensor" -> Sensor(c.x, c.y)
      [] c.op = "view" -> Build(c.x, c.i, c.y)
      [] c.op = "forget" -> IF views[c.x] # <<>> THEN Forget(c.x) ELSE UNCHANGED vars /\ Done(Act("forget", 0, c.x, 0), "none")
      [] c.op = "end" -> End
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> views']))
===============================================================================
