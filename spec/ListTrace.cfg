SPECIFICATION TraceSpec
CONSTANTS
  Slots = {1, 2, 3}
  Vals = {}
  MaxLen = 0
