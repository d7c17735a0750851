SPECIFICATION Spec
CONSTANTS
  Top = 4000
  Small = 9
INVARIANT Inv
CHECK_DEADLOCK FALSE
