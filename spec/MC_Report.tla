----------------------------- MODULE MC_Report -----------------------------
(***************************************************************************)
(* A field of N nodes receives realizations; what is reported at every     *)
(* moment.  Variant "last": a threshold's row is the last entry of the     *)
(* probability instead of the first.                                       *)
(***************************************************************************)
EXTENDS Report, TLC
CONSTANTS N, MaxReal, Ws, Variant
VARIABLES V, T
vars == <<V, T>>
Init == V = [i \in 1 .. N |-> 0] /\ T = 0
Register == \E S \in SUBSET (1 .. N) : \E w \in Ws :
    /\ T + w <= MaxReal
    /\ V' = [i \in 1 .. N |-> V[i] + IF i \in S THEN w ELSE 0] /\ T' = T + w
Spec == Init /\ [][Register]_vars

TheRow(k) == IF Variant = "last" THEN LET v == Largest(NotAbove(V, T, k)) IN <<v, AtLeast(V, v)>> ELSE Row(V, T, k)
Refuse == Refused(T) <=> \A i \in 1 .. N : V[i] = 0 /\ T = 0
AreaIsCaptured == \A i \in 1 .. N : LET e == Impact(V)[i] IN
    /\ AtLeast(V, e[1]) >= e[2]                      \* that many cells are captured with at least e[1]
    /\ Above(V, e[1]) < e[2]                         \* and not with more
TableHasEverything == \A v \in 0 .. T : Cardinality({i \in 1 .. N : V[i] = v}) = Cardinality({i \in 1 .. N : Impact(V)[i][1] = v})
RowsFirst == ~Refused(T) => \A k \in 1 .. 19 : HasRow(V, T, k) =>
    LET r == TheRow(k) IN /\ Impact(V)[r[2]] = r                                   \* an entry of the table
                          /\ 20 * r[1] <= k * T
                          /\ \A i \in 1 .. (r[2] - 1) : 20 * Impact(V)[i][1] > k * T
RowsMonotone == ~Refused(T) => \A k \in 1 .. 18 : HasRow(V, T, k) => TheRow(k)[1] <= TheRow(k+1)[1] /\ TheRow(k)[2] >= TheRow(k+1)[2]
ZoneIsTable == LET n == Cardinality(Cells(V)) IN (n > 0 => Impact(V)[n][1] > 0) /\ (n < N => Impact(V)[n+1][1] = 0)
NeverLess == [][\A i \in 1 .. N : V'[i] >= V[i]]_vars
=============================================================================
