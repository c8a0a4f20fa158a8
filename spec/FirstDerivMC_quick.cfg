SPECIFICATION Spec
CONSTANTS MaxIntervals = 6
          MaxSegs = 3
          Emit = TRUE
INVARIANTS Exact Local
CHECK_DEADLOCK FALSE
