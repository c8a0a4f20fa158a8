SPECIFICATION Spec
CONSTANTS MaxReads = 1
          Emit = TRUE
INVARIANTS Refused Distinct
CHECK_DEADLOCK FALSE
