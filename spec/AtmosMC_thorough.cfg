SPECIFICATION Spec
CONSTANTS Step = 1
          MaxNodes = 4
          Emit = TRUE
INVARIANTS Monotone Smooth NearStandard Inverse
CHECK_DEADLOCK FALSE
