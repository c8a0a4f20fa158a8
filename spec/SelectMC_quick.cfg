SPECIFICATION Spec
CONSTANTS MaxOpts = 3
          MaxNodes = 3
          MaxSteps = 2
          MaxRank = 3
          Emit = TRUE
INVARIANTS Forward Extremes
CHECK_DEADLOCK FALSE
