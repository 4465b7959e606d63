SPECIFICATION TraceSpec
CONSTANTS
  TInit <- LInit
  TNext <- LNext
  TFail <- LFail
CHECK_DEADLOCK FALSE
