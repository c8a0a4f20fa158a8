SPECIFICATION Spec
CONSTANTS
  N = 8
  Tol = 2
  Slopes = {1, 2}
  Highs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
INVARIANTS Decided NeverAbove
PROPERTY Settles
CHECK_DEADLOCK FALSE
