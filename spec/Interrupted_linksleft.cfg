SPECIFICATION Spec
CONSTANTS
  N = 2
  Top = 1
  P = 5
  Cap = 3
  Variant = "linksleft"
VIEW View
INVARIANTS Sound
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
