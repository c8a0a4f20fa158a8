SPECIFICATION Spec
CONSTANTS Fudge = 3
          MaxSteps = 2
          Emit = TRUE
INVARIANTS ItemsFresh TotalFresh Disjoint Report
CHECK_DEADLOCK FALSE
