------------------------------ MODULE Camera_G ------------------------------
(* Camera taking the steps it is told to. *)
EXTENDS Camera, IOUtils
VARIABLE n
G == JsonDeserialize(IOEnv.VF_TRACE)
Do(c) ==
    CASE c.op = "reset" -> act' = c /\ s' = Start
      [] c.op = "focal" -> Focal(c)
      [] c.op = "sensor" -> Sensor(c)
      [] c.op = "size" -> Size(c)
      [] c.op = "matrix" -> Matrix(c)
      [] c.op = "lens" -> Lens(c)
      [] c.op = "unlens" -> Unlens(c)
      [] c.op = "flip" -> Flip(c)
      [] c.op = "stop" -> Stop(c)
      [] c.op = "aperture" -> Aperture(c)
      [] c.op = "focus" -> Focus(c)
      [] c.op = "diopters" -> Diopters(c)
      [] c.op = "blur" -> Blur(c)
      [] c.op = "ownblur" -> OwnBlur(c)
      [] c.op = "unblur" -> Unblur(c)
      [] c.op = "project" -> Project(c)
      [] c.op = "cast" -> Cast(c)
      [] c.op = "see" -> See(c)
GInit == Init /\ n = 0
GNext == n < Len(G) /\ n' = n + 1 /\ Do(G[n + 1])
GView == n
GEmit == PrintT(ToJson([a |-> act']))
\* a camera is always one that could have been set up directly
Sound == s.f > 0 /\ s.px > 0 /\ s.py > 0 /\ s.w >= 0 /\ s.h >= 0 /\ s.dn > 0
=============================================================================
