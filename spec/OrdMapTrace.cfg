SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
  Entries = {}
