SPECIFICATION Spec
VIEW View
CONSTANTS Geos = {1, 2} MaxOps = 7 Emit = TRUE
INVARIANTS Fresh CacheTrue
PROPERTY Report
CHECK_DEADLOCK FALSE
