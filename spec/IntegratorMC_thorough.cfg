SPECIFICATION Spec
CONSTANTS MaxStates = 2
          NodeCounts = {1, 3, 5, 7, 9, 11, 13, 21}
          Emit = TRUE
INVARIANTS RulesExact Independent Anchored
CHECK_DEADLOCK FALSE
