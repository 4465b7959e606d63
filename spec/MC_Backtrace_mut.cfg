SPECIFICATION Spec
CONSTANTS
  MaxT = 6
  Dts = {1, 2, 5}
  Clipped = FALSE
INVARIANTS NeverBeyond Advances Exactly StartKept
PROPERTIES Terminates OnlyAcceptExtends FailureKeepsPath
CHECK_DEADLOCK FALSE
