SPECIFICATION Spec
CONSTANTS
  Size = 4
  Prios = {1, 2, 3}
  Variant = "cutshift"
VIEW View
INVARIANTS Refines Shaped
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
