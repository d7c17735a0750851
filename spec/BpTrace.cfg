SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1}
  Entries = {}
