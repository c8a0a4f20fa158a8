SPECIFICATION Spec
CONSTANTS Points = {1, 2, 3}
          MaxNodes = 3
          MaxBatches = 3
          Emit = TRUE
INVARIANTS Own Complete
CHECK_DEADLOCK FALSE
