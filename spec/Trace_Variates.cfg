SPECIFICATION TraceSpec
CONSTANTS
  TInit <- VInit
  TNext <- VNext
  TFail <- VFail
CHECK_DEADLOCK FALSE
