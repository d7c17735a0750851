SPECIFICATION Spec
CONSTANTS
  N = 6
  Variant = "nosplay"
VIEW View
INVARIANTS Refines Amortised
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
