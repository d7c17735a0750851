SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Entries <- MCEntries
INVARIANT Laws
CHECK_DEADLOCK FALSE
