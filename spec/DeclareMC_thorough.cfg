SPECIFICATION Spec
CONSTANTS MaxLeaves = 2
          MaxStates = 2
          MaxWeight = 2
          Paths = {"vm", "a.vm", "a.w", "a.b.w"}
          Emit = TRUE
INVARIANTS Injective
CHECK_DEADLOCK FALSE
