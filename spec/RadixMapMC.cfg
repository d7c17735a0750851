SPECIFICATION Spec
CONSTANTS
  Keys <- MCKeys
  Vals = {1, 2}
INVARIANT Laws
CHECK_DEADLOCK FALSE
