SPECIFICATION Spec
CONSTANTS
  Alts = {1, 2, 3}
  Elevs = {0, 1}
  Ranges = {7, 8, 9, 10}
  ResRanges = {4, 5, 7}
  Loiters = {0, 2}
  MaxT = 8
INVARIANT Promises
CHECK_DEADLOCK FALSE
