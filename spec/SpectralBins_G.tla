--------------------------- MODULE SpectralBins_G ---------------------------
(* SpectralBins taking the steps it is told to. *)
EXTENDS SpectralBins, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ layout' = Layouts.rgb
      [] c.op = "layout" -> Take(c.name)
      [] c.op = "data" -> Data(c.w, c.v)
      [] c.op = "total" -> Total(c.t)
      [] c.op = "summary" -> Summary(c.a)
      [] c.op = "band" -> Band(c.a, c.lo, c.hi)
      [] c.op = "arith" -> Arith(c.f, c.shape, c.eq, c.a, c.b)
      [] c.op = "same" -> Same(c.a, c.b)
      [] c.op = "list" -> List(c.a)
      [] c.op = "colour" -> Colour(c.c)
      [] c.op = "scaled" -> Scaled(c.a, c.from, c.to)
      [] c.op = "edges" -> Edges
      [] c.op = "exists" -> Exists(c.i)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs]))
=============================================================================
