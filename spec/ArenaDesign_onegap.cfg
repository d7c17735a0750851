SPECIFICATION Spec
CONSTANTS
  Chunk = 2
  MaxSlots = 5
  Variant = "onegap"
VIEW View
INVARIANTS Refines Threaded Packed
PROPERTY Abstract
ACTION_CONSTRAINT Recorded
CHECK_DEADLOCK FALSE
