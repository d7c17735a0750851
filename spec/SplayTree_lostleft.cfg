SPECIFICATION Spec
CONSTANTS
  N = 6
  Variant = "lostleft"
VIEW View
INVARIANTS Refines Amortised
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
