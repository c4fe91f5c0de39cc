------------------------------ MODULE Toolkit_G ------------------------------
(* Toolkit taking the steps it is told to. *)
EXTENDS Toolkit, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> /\ act' = c /\ def' = "lsk" /\ pck' = "good" /\ lsk' = FALSE /\ flag' = FALSE /\ mode' = "ABORT" /\ pend' = FALSE
                           /\ inj' = None /\ cwd' = "top" /\ loaded' = <<>> /\ bag' = FALSE
      [] c.op = "furnsh" -> Furnsh(c)
      [] c.op = "furnsh_rel" -> FurnshRelative(c)
      [] c.op = "nofolder" -> NoFolder(c)
      [] c.op = "pck" -> Pck(c)
      [] c.op = "call" -> Call(c)
      [] c.op = "threads" -> Threads(c)
      [] c.op = "stale" -> Stale(c)
      [] c.op = "inject" -> Inject(c)
      [] c.op = "calm" -> Calm(c)
      [] c.op = "file" -> File(c)
      [] c.op = "cd" -> Cd(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs']))
=============================================================================
