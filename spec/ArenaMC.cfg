SPECIFICATION Spec
CONSTANTS
  Vals = {1, 2}
  MaxSlots = 6
INVARIANT Bounded
PROPERTIES Local NeverForgets
CHECK_DEADLOCK FALSE
