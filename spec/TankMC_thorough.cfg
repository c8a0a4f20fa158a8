SPECIFICATION Spec
CONSTANTS Fill = 100
          Struct = 40
          Draws = {0, 2, 5}
          MaxSteps = 6
          MaxPhases = 4
          Emit = TRUE
INVARIANTS Conserved Weighs Report
CHECK_DEADLOCK FALSE
