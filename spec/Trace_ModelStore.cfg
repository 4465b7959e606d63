SPECIFICATION TraceSpec
CONSTANTS
  Copy = TRUE
  TInit <- SInit
  TNext <- SNext
  TFail <- SFail
CHECK_DEADLOCK FALSE
