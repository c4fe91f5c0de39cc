---------------------------- MODULE UnitAlgebra_G ----------------------------
(* UnitAlgebra taking the steps it is told to. *)
EXTENDS UnitAlgebra, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c
      [] c.op = "table" -> Table
      [] c.op = "value" -> Value(c.x, c.unit)
      [] c.op = "compare" -> Compare(c.x, c.y)
      [] c.op = "accept" -> Accept(c.x, c.y, c.kind)
      [] c.op = "nan" -> Nan(c.u, c.how)
      [] c.op = "literal" -> Literal(c.i, c.v, c.w)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs]))
===============================================================================
