SPECIFICATION Spec
CONSTANTS Kind = "add"
          MaxEqs = 3
          Pairs = "all"
          Emit = TRUE
INVARIANTS Structure Aligned
CHECK_DEADLOCK FALSE
