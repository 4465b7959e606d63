SPECIFICATION Spec
CONSTANTS
  R = 3
  Steps = 4
  Coefs = {2}
  Rates = {4}
  MaxH = 6
  Flip = FALSE
INVARIANTS MinusGradient Superposition OrderIrrelevant HeadLaw AcrossLaw
CHECK_DEADLOCK FALSE
