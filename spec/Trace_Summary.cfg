SPECIFICATION TraceSpec
CONSTANTS
  TInit <- YInit
  TNext <- YNext
  TFail <- YFail
CHECK_DEADLOCK FALSE
