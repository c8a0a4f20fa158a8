SPECIFICATION Spec
CONSTANTS
  Most = 2
INVARIANTS Sane Unreached Closes Felt
CHECK_DEADLOCK FALSE
