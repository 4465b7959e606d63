SPECIFICATION TraceSpec
CONSTANTS
  TInit <- FInit
  TNext <- FNext
  TFail <- FFail
CHECK_DEADLOCK FALSE
