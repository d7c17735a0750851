SPECIFICATION Spec
CONSTANTS
  Size = 4
  Top = 2
  Variant = "shortspan"
VIEW View
INVARIANTS Refines Spans
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
