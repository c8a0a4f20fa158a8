SPECIFICATION Spec
CONSTANTS Kind = "mul"
          MaxEqs = 2
          Pairs = "small"
          Emit = TRUE
INVARIANTS Structure Aligned
CHECK_DEADLOCK FALSE
