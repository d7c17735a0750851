SPECIFICATION Spec
CONSTANTS
  N = 8
  Variant = "norepair"
VIEW View
INVARIANTS Refines Balanced
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
