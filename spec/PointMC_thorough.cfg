SPECIFICATION Spec
CONSTANTS Points = {"A", "B", "C"}
          MaxLen = 8
          Emit = TRUE
INVARIANTS Current NoStaleJ
CHECK_DEADLOCK FALSE
