SPECIFICATION Spec
CONSTANTS
  N = 3
  Prios = {1, 2}
  Variant = "rootwins"
VIEW View
INVARIANTS Refines
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
