SPECIFICATION TraceSpec
CONSTANTS
  TInit <- OInit
  TNext <- ONext
  TFail <- OFail
CHECK_DEADLOCK FALSE
