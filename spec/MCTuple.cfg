SPECIFICATION MCSpec
CONSTANTS
  Layouts <- MCLayouts
  Vals = {0, 1, 129}
  MaxOps = 4
INVARIANTS KeepsValues SliceAgrees
PROPERTIES Footprint ReadBack Copies
CHECK_DEADLOCK FALSE
