SPECIFICATION TSpec
CONSTANTS
  Alphabet = {1, 2}
  MaxLen = 2
  Variant = "keepvalue"
  Vals = {0}
  Keys <- KeysDef
VIEW View
INVARIANTS Refines Shape
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
