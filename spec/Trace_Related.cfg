SPECIFICATION TraceSpec
CONSTANTS
  TInit <- RInit
  TNext <- RNext
  TFail <- RFail
CHECK_DEADLOCK FALSE
