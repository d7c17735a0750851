SPECIFICATION TraceSpec
CONSTANTS
  Keys = {}
  Vals = {}
