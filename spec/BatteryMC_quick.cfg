SPECIFICATION Spec
CONSTANTS E0 = 10
          Powers = {0, 1, 3}
          MaxSteps = 4
          MaxPhases = 3
          Emit = TRUE
INVARIANTS PhaseBook ChainBook Report
CHECK_DEADLOCK FALSE
