CONSTANTS Chan = {"albedo", "alpha", "metallic", "roughness", "normal", "transmission", "emissive"}
          Pics = {1, 2}
          Facts = {1, 2, 3, 4, 5}
INIT Init
NEXT Next
INVARIANTS ResetIsFresh Visible SimEmit
CHECK_DEADLOCK FALSE
