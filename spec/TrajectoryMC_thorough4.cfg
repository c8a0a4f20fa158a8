SPECIFICATION Spec
CONSTANTS NPhases = 4
          Keys = {"x", "y"}
          MaxLinks = 2
          Emit = TRUE
INVARIANTS Continuous NoLoop OneStart
CHECK_DEADLOCK FALSE
