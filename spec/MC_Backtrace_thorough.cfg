SPECIFICATION Spec
CONSTANTS
  MaxT = 9
  Dts = {1, 2, 3, 5, 11}
  Clipped = TRUE
INVARIANTS NeverBeyond Advances Exactly StartKept
PROPERTIES Terminates OnlyAcceptExtends FailureKeepsPath
CHECK_DEADLOCK FALSE
