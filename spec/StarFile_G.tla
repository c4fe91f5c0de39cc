----------------------------- MODULE StarFile_G -----------------------------
(* StarFile taking the steps it is told to. *)
EXTENDS StarFile, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> cat' = <<>> /\ type' = 0 /\ file' = Absent /\ act' = c
      [] c.op = "add" -> Add(c.t, c.m)
      [] c.op = "type" -> SetType(c.x)
      [] c.op = "sort" -> Sort
      [] c.op = "clip" -> Clip(c.l)
      [] c.op = "fresh" -> Restart
      [] c.op = "write" -> Write
      [] c.op = "write_fails" -> WriteFails(c.where)
      [] c.op = "read" -> Read(c.l)
      [] c.op = "load" -> Load(c.l)
      [] c.op = "damage" -> Damage(c.how, c.k)
      [] c.op = "remove" -> Remove
      [] c.op = "read_folder" -> MakeFolder
      [] c.op = "name" -> Names(c.i)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs']))
===============================================================================
