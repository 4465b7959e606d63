SPECIFICATION TraceSpec
CONSTANTS
  TInit <- GInit
  TNext <- GNext
  TFail <- GFail
CHECK_DEADLOCK FALSE
