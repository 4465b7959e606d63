SPECIFICATION TraceSpec
CONSTANTS
  TInit <- BInit
  TNext <- BNext
  TFail <- BFail
CHECK_DEADLOCK FALSE
