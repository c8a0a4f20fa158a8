SPECIFICATION Spec
CONSTANTS Points = {"A", "B"}
          MaxLen = 6
          Emit = TRUE
INVARIANTS Current NoStaleJ
CHECK_DEADLOCK FALSE
