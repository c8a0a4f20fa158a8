SPECIFICATION Spec
CONSTANTS MaxRels = 2
          MaxParts = 3
          MaxSize = 3
          Emit = TRUE
INVARIANTS RoundTrip InOrder
CHECK_DEADLOCK FALSE
