SPECIFICATION Spec
INVARIANT MassKept
INVARIANT HeatKept
INVARIANT Mixed
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  M0 = 1600
  T0 = 300
  Heats = {16, 48}
  Fracs = {25, 50, 75}
  MaxOps = 5
  Emit = TRUE
