SPECIFICATION Spec
CONSTANTS
    Vals = {0, 1, 4}
    MaxRows = 4
    Variant = "good"
INVARIANTS Ordered VarianceIsMeanSquareDeviation NoSpreadExactlyIfEqual HalfBelowMedian OneWayToWrite
PROPERTY MissingLeftOut
CHECK_DEADLOCK FALSE
