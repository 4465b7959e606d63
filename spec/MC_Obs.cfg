SPECIFICATION Spec
CONSTANTS
  MaxObs = 3
  Px = {0, 12, 18, 25}
  Py = {0, 6}
  Heads = {1}
  Stds = {1, 3}
  Buffer = 7
  AdjacentOnly = FALSE
  FirstWellOnly = FALSE
INVARIANTS AgreesWithOperators Partition ExactlyNearOnesDropped NoTwoRetainedClose OrderKept InformationConserved NotWorse PositionIrrelevant
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
