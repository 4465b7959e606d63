----------------------------- MODULE MC_Summary -----------------------------
(***************************************************************************)
(* A table of two columns grows record by record; what the statistics of   *)
(* the table so far are.  Variant "sample": divides by n - 1.              *)
(***************************************************************************)
EXTENDS Summary, TLC
CONSTANTS Vals, MaxRows, Variant
VARIABLE rows
Init == rows = <<>>
Next == Len(rows) < MaxRows /\ \E a, b \in Vals \cup {NaN} : rows' = Append(rows, <<a, b>>)
Spec == Init /\ [][Next]_rows
Col(r, j) == Present([i \in 1 .. Len(r) |-> r[i][j]])
\* (once for every column is enough)
Both == IF Col(rows, 2) = <<>> THEN {Col(rows, 1)} \ {<<>>} ELSE {}

\* the variance over n^2 of the definition: the sum of squared deviations from the mean
RECURSIVE Dev2(_, _)
Dev2(c, k) == IF k = 0 THEN 0 ELSE (Len(c) * c[k] - Total(c)) * (Len(c) * c[k] - Total(c)) + Dev2(c, k - 1)
V(c) == IF Variant = "sample" /\ Len(c) > 1 THEN (Var(c) * Len(c)) \div (Len(c) - 1) ELSE Var(c)

Ordered == \A c \in Both : 2 * MinOf(c) <= Med2(c) /\ Med2(c) <= 2 * MaxOf(c)
                           /\ Len(c) * MinOf(c) <= Total(c) /\ Total(c) <= Len(c) * MaxOf(c)
VarianceIsMeanSquareDeviation == \A c \in Both : V(c) * Len(c) = Dev2(c, Len(c))
NoSpreadExactlyIfEqual == \A c \in Both : Var(c) >= 0 /\ (Var(c) = 0 <=> MinOf(c) = MaxOf(c))
HalfBelowMedian == \A c \in Both : /\ 2 * Cardinality({i \in 1 .. Len(c) : 2 * c[i] < Med2(c)}) <= Len(c)
                                   /\ 2 * Cardinality({i \in 1 .. Len(c) : 2 * c[i] > Med2(c)}) <= Len(c)
OneWayToWrite == \A c \in Both :
    /\ \E v \in -1 .. 12 : IsMeanW(c, v)
    /\ \E v \in 0 .. 12 : IsStdW(c, v)
    /\ \A v, w \in -1 .. 12 : IsMeanW(c, v) /\ IsMeanW(c, w) => v - w <= 1
    /\ \A v, w \in 0 .. 12 : IsStdW(c, v) /\ IsStdW(c, w) => v - w <= 1
\* a missing value counts in no column, and only its own column loses it
MissingLeftOut == [][\A j \in {1, 2} : LET x == rows'[Len(rows')][j] IN
                        Col(rows', j) = IF x = NaN THEN Col(rows, j) ELSE Append(Col(rows, j), x)]_rows
=============================================================================
