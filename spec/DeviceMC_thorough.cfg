SPECIFICATION Spec
CONSTANTS Source = 6
          Effs = {0, 90, 100}
          Fracs = {0, 30, 100}
          Amounts = {0, 2, 6, 9}
          MaxDev = 3
          Emit = TRUE
INVARIANTS Balance NoneNegative Report
CHECK_DEADLOCK FALSE
