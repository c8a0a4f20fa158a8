SPECIFICATION Spec
CONSTANTS MaxRels = 3
          MaxParts = 4
          MaxSize = 3
          Emit = TRUE
INVARIANTS RoundTrip InOrder
CHECK_DEADLOCK FALSE
