------------------------------ MODULE Convolve_G ------------------------------
EXTENDS Convolve, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> im' = [w |-> 0, h |-> 0, px |-> <<>>, bits |-> 0] /\ act' = c
      [] c.op = "image" -> Image(c.w, c.h, c.px, c.bits)
      [] c.op = "convolve" -> Blur(c.w, c.h, c.px)
      [] c.op = "self" -> BlurSelf
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act', o |-> Obs']))
===============================================================================
