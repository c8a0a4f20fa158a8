SPECIFICATION Spec
CONSTANTS MaxVars = 7
          MaxRows = 3
          MaxCols = 3
          Emit = TRUE
INVARIANTS Placed OwnPanel InOrder AllWritten Report
CHECK_DEADLOCK FALSE
