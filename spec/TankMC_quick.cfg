SPECIFICATION Spec
CONSTANTS Fill = 100
          Struct = 40
          Draws = {0, 2, 5}
          MaxSteps = 4
          MaxPhases = 3
          Emit = TRUE
INVARIANTS Conserved Weighs Report
CHECK_DEADLOCK FALSE
