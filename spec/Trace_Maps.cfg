SPECIFICATION TraceSpec
CONSTANTS
  TInit <- PInit
  TNext <- PNext
  TFail <- PFail
CHECK_DEADLOCK FALSE
