SPECIFICATION Spec
CONSTANTS E0 = 10
          Powers = {0, 1, 3}
          MaxSteps = 6
          MaxPhases = 4
          Emit = TRUE
INVARIANTS PhaseBook ChainBook Report
CHECK_DEADLOCK FALSE
