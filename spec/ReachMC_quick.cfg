SPECIFICATION Spec
CONSTANTS
  Most = 1
INVARIANTS Sane Unreached Closes Felt
CHECK_DEADLOCK FALSE
