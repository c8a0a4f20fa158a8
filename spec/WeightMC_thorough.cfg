SPECIFICATION Spec
CONSTANTS Fudge = 3
          MaxSteps = 3
          Emit = TRUE
INVARIANTS ItemsFresh TotalFresh Disjoint Report
CHECK_DEADLOCK FALSE
