SPECIFICATION Spec
INVARIANT Limit
INVARIANT Range
INVARIANT FromHot
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Caps = {1, 2, 3, 5, 8}
  Temps = {280, 300, 310, 340}
  MaxQ = 60
  Emit = TRUE
