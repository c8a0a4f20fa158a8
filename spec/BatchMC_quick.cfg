SPECIFICATION Spec
CONSTANTS Points = {1, 2, 3}
          MaxNodes = 4
          MaxBatches = 2
          Emit = TRUE
INVARIANTS Own Complete
CHECK_DEADLOCK FALSE
