SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Nodes = {1, 2, 5}
          Emit = TRUE
INVARIANTS Alike Rated Current Report
CHECK_DEADLOCK FALSE
