SPECIFICATION Spec
CONSTANTS
  N = 3
  Top = 2
  Variant = "code"
VIEW View
INVARIANTS Refines Levels
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
