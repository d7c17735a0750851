SPECIFICATION Spec
CONSTANTS
  N = 3
  Cap = 1
  Leveled = FALSE
  Mc = 1
  Mi = 1
  Gf = 1
  Per = 1
  Min = 0
  Low = 90
  High = 110
  MaxSS = 3
  Faults = 0
  Variant = "code"
VIEW View
INVARIANTS Present Reads Durable Apart Newer Bounded Tidy Hint Still
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
