SPECIFICATION Spec
CONSTANTS NPhases = 3
          Keys = {"x", "y"}
          MaxLinks = 2
          Emit = TRUE
INVARIANTS Continuous NoLoop OneStart
CHECK_DEADLOCK FALSE
