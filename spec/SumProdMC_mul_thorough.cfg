SPECIFICATION Spec
CONSTANTS Kind = "mul"
          MaxEqs = 2
          Pairs = "all"
          Emit = TRUE
INVARIANTS Structure Aligned
CHECK_DEADLOCK FALSE
