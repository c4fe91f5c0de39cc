CONSTANTS Chan = {"depth", "albedo", "ids", "camera_normals", "world_normals", "direct", "indirect", "power", "response"}
          MaxW = 3
INIT Init
NEXT Next
INVARIANTS NothingInDisabled ClearedTogether SimEmit
PROPERTY Independent
