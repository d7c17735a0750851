SPECIFICATION Spec
CONSTANTS
  N = 2
  Cap = 2
  Leveled = TRUE
  Mc = 1
  Mi = 1
  Gf = 1
  Per = 1
  Min = 0
  Low = 50
  High = 150
  MaxSS = 2
  Faults = 1
  Variant = "dropfirst"
VIEW View
INVARIANTS Present Reads Durable Apart Newer Bounded Hint Still Flushed Awake
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
