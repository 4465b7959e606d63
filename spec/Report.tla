------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What is reported about a probability field: V = the accumulated weights *)
(* of its nodes (a sequence, row by row), T = the total weight.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Refused(T) == T <= 0

\* the impact table: entry i says that i cells are captured with at least this weight
Desc(V) == SortSeq(V, LAMBDA a, b : a > b)
Impact(V) == [i \in 1 .. Len(V) |-> <<Desc(V)[i], i>>]

Above(V, v)    == Cardinality({i \in 1 .. Len(V) : V[i] > v})
AtLeast(V, v)  == Cardinality({i \in 1 .. Len(V) : V[i] >= v})

\* the row for threshold k/20: the first entry whose probability is not above it
NotAbove(V, T, k) == {V[i] : i \in {i \in 1 .. Len(V) : 20 * V[i] <= k * T}}
Below1(V, T, k)   == {V[i] : i \in {i \in 1 .. Len(V) : 20 * V[i] < k * T}}
Largest(S) == CHOOSE v \in S : \A w \in S : w <= v
Row(V, T, k) == LET v == Largest(NotAbove(V, T, k)) IN <<v, Above(V, v) + 1>>
\* a probability exactly at a threshold may fall on either side of it (floating point)
RowB(V, T, k) == LET v == Largest(Below1(V, T, k)) IN <<v, Above(V, v) + 1>>
HasRow(V, T, k)  == NotAbove(V, T, k) # {}
HasRowB(V, T, k) == Below1(V, T, k) # {}

\* the cells of a deterministic capture zone
Cells(V) == {i \in 1 .. Len(V) : V[i] > 0}
=============================================================================
