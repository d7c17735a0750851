SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Vals = {1, 2}
  MaxLen = 4
INVARIANT Laws
CHECK_DEADLOCK FALSE
