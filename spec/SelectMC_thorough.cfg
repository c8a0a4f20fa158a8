SPECIFICATION Spec
CONSTANTS MaxOpts = 3
          MaxNodes = 4
          MaxSteps = 2
          MaxRank = 5
          Emit = TRUE
INVARIANTS Forward Extremes
CHECK_DEADLOCK FALSE
