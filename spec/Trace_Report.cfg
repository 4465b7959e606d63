SPECIFICATION TraceSpec
CONSTANTS
  TInit <- QInit
  TNext <- QNext
  TFail <- QFail
CHECK_DEADLOCK FALSE
