SPECIFICATION Spec
CONSTANTS
  R = 2
  Steps = 3
  Coefs = {2}
  Rates = {4}
  MaxH = 6
  Flip = FALSE
INVARIANTS MinusGradient Superposition OrderIrrelevant HeadLaw AcrossLaw
CHECK_DEADLOCK FALSE
