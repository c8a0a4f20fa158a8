SPECIFICATION Spec
CONSTANTS Kind = "add"
          MaxEqs = 2
          Pairs = "all"
          Emit = TRUE
INVARIANTS Structure Aligned
CHECK_DEADLOCK FALSE
