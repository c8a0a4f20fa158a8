SPECIFICATION Spec
CONSTANTS MaxReads = 2
          Emit = TRUE
INVARIANTS Refused Distinct
CHECK_DEADLOCK FALSE
