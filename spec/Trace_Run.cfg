SPECIFICATION TraceSpec
CONSTANTS
  TInit <- UInit
  TNext <- UNext
  TFail <- UFail
CHECK_DEADLOCK FALSE
