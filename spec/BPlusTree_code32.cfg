SPECIFICATION Spec
CONSTANTS
  N = 8
  LD = 3
  ID = 2
  Variant = "code"
VIEW View
INVARIANTS Refines Shaped Pages Space
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
