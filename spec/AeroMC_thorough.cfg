SPECIFICATION Spec
CONSTANTS Fudge = 3
          MaxSteps = 3
          Emit = TRUE
INVARIANTS ItemsFresh TotalFresh Report
PROPERTY IdleInert
CHECK_DEADLOCK FALSE
