SPECIFICATION Spec
CONSTANTS
  N = 8
  LD = 2
  ID = 3
  Variant = "code"
VIEW View
INVARIANTS Refines Shaped Pages Space
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
