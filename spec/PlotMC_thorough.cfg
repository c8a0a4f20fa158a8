SPECIFICATION Spec
CONSTANTS MaxVars = 13
          MaxRows = 4
          MaxCols = 3
          Emit = TRUE
INVARIANTS Placed OwnPanel InOrder AllWritten Report
CHECK_DEADLOCK FALSE
