SPECIFICATION TSpec
CONSTANTS
  Alphabet = {1, 2}
  MaxLen = 3
  Variant = "code"
  Vals = {0}
  Keys <- KeysDeep
VIEW View
INVARIANTS Refines Shape
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
