---------------------------- MODULE ImageAccess_G ----------------------------
(* ImageAccess taking the steps it is told to. *)
EXTENDS ImageAccess, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> im' = <<Empty, Empty>> /\ act' = c
      [] c.op = "new" -> New(c.k, <<c.w, c.h>>, c.v)
      [] c.op = "copy" -> Copy(c.k, c.how)
      [] c.op = "clear" -> Clear(c.k)
      [] c.op = "fill" -> Fill(c.k, c.v)
      [] c.op = "write" -> Write(c.k, c.x, c.y, c.v)
      [] c.op = "read" -> Read(c.k, c.x, c.y)
      [] c.op = "write_index" -> WriteIndex(c.k, c.i, c.v)
      [] c.op = "write_pos" -> WritePos(c.k, c.px, c.py, c.v)
      [] c.op = "write_wild" -> WriteWild(c.k, c.what)
      [] c.op = "sample" -> Sample(c.k, c.p, c.q, c.mode)
      [] c.op = "sample_wild" -> SampleWild(c.k, c.s, c.t, c.mode)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs']))
===============================================================================
