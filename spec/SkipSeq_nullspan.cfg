SPECIFICATION Spec
CONSTANTS
  Size = 4
  Top = 2
  Variant = "nullspan"
VIEW View
INVARIANTS Refines Spans
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
