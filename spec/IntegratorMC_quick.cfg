SPECIFICATION Spec
CONSTANTS MaxStates = 2
          NodeCounts = {1, 3, 5, 7, 11}
          Emit = TRUE
INVARIANTS RulesExact Independent Anchored
CHECK_DEADLOCK FALSE
