SPECIFICATION TSpec
CONSTANTS
  Alphabet = {1, 2, 3}
  MaxLen = 2
  Variant = "code"
  Vals = {0}
  Keys <- KeysWide
VIEW View
INVARIANTS Refines Shape
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
