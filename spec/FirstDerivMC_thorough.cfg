SPECIFICATION Spec
CONSTANTS MaxIntervals = 12
          MaxSegs = 5
          Emit = TRUE
INVARIANTS Exact Local
CHECK_DEADLOCK FALSE
