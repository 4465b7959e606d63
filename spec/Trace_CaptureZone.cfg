SPECIFICATION TraceSpec
CONSTANTS
  TInit <- ZInit
  TNext <- ZNext
  TFail <- ZFail
CHECK_DEADLOCK FALSE
