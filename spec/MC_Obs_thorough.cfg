SPECIFICATION Spec
CONSTANTS
  MaxObs = 4
  Px = {0, 12, 18, 25, 30}
  Py = {0, 6}
  Heads = {1}
  Stds = {2}
  Buffer = 7
  AdjacentOnly = FALSE
  FirstWellOnly = FALSE
INVARIANTS AgreesWithOperators Partition ExactlyNearOnesDropped NoTwoRetainedClose OrderKept InformationConserved NotWorse PositionIrrelevant
CHECK_DEADLOCK FALSE
