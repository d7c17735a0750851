SPECIFICATION ChainSpec
CONSTANTS
  N = 48
  Variant = "code"
VIEW View
INVARIANTS Amortised
CHECK_DEADLOCK FALSE
