SPECIFICATION Spec
CONSTANTS Machs = {1, 2, 3, 4, 5}
          MaxSteps = 5
          Regions = {"whole", "inner", "outer", "normed"}
          Emit = TRUE
INVARIANTS ZeroBelow GrowsAbove Monotone Report
CHECK_DEADLOCK FALSE
