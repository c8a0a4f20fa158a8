SPECIFICATION Spec
CONSTANTS Step = 25
          MaxNodes = 3
          Emit = TRUE
INVARIANTS Monotone Smooth NearStandard Inverse
CHECK_DEADLOCK FALSE
