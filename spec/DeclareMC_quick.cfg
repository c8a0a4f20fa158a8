SPECIFICATION Spec
CONSTANTS MaxLeaves = 2
          MaxStates = 2
          MaxWeight = 1
          Paths = {"vm", "a.vm", "a.b.w"}
          Emit = TRUE
INVARIANTS Injective
CHECK_DEADLOCK FALSE
