SPECIFICATION ChainSpec
CONSTANTS
  N = 48
  Variant = "simple"
VIEW View
INVARIANTS Amortised
CHECK_DEADLOCK FALSE
