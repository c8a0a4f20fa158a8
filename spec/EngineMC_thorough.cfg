SPECIFICATION Spec
CONSTANTS MaxOps = 4
          Nodes = {1, 2, 3, 7}
          Emit = TRUE
INVARIANTS Alike Rated Current Report
CHECK_DEADLOCK FALSE
