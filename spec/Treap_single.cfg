SPECIFICATION Spec1
CONSTANTS
  N = 5
  Prios = {1, 2, 3}
  Variant = "code"
VIEW View
INVARIANTS Refines
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
