SPECIFICATION Spec
CONSTANTS PanelCounts = {1, 2, 4}
          MaxRegions = 3
          Chords = {1, 3}
          Emit = TRUE
INVARIANTS Ordered Count SectionsOnNodes Shared Additive Report
CHECK_DEADLOCK FALSE
