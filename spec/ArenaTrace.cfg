SPECIFICATION TraceSpec
CONSTANTS
  Vals = {}
  MaxSlots = 0
