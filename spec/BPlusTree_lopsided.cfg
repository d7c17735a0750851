SPECIFICATION Spec
CONSTANTS
  N = 7
  LD = 3
  ID = 2
  Variant = "lopsided"
VIEW View
INVARIANTS Refines Shaped Pages Space
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
