SPECIFICATION Spec
INVARIANT Energy
INVARIANT Pressure
INVARIANT Continuity
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Tt0 = 300
  Pt0 = 20000
  Pexit = 10300
  Heats = {0, 1, 2}
  Drops = {0, 40}
  Recs = {95, 100}
  Losses = {0, 30}
  Emit = TRUE
