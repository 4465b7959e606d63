SPECIFICATION TraceSpec
CONSTANTS
  TInit <- AInit
  TNext <- ANext
  TFail <- AFail
CHECK_DEADLOCK FALSE
