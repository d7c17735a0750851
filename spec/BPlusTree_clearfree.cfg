SPECIFICATION Spec
CONSTANTS
  N = 7
  LD = 2
  ID = 2
  Variant = "clearfree"
VIEW View
INVARIANTS Refines Shaped Pages Space
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
