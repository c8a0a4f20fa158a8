SPECIFICATION Spec
CONSTANTS
  Alts = {1, 2}
  Elevs = {0, 1}
  Ranges = {7, 8}
  ResRanges = {4, 5}
  Loiters = {0, 2}
  MaxT = 8
INVARIANT Promises
CHECK_DEADLOCK FALSE
