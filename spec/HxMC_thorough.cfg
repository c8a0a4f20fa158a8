SPECIFICATION Spec
INVARIANT Limit
INVARIANT Range
INVARIANT FromHot
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Caps = {1, 2, 3, 4, 5, 8, 13, 21}
  Temps = {280, 300, 310, 340}
  MaxQ = 600
  Emit = TRUE
