SPECIFICATION Spec
CONSTANTS NPhases = 2
          Keys = {"x", "y", "z"}
          MaxLinks = 2
          Emit = TRUE
INVARIANTS Continuous NoLoop OneStart
CHECK_DEADLOCK FALSE
