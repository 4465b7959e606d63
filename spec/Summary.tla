------------------------------ MODULE Summary ------------------------------
(***************************************************************************)
(* The table of statistics of a list of records, column by column.         *)
(* Values are integers (units of the last decimal written, from an         *)
(* arbitrary zero); NaN is a missing value.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NaN == 2000000000
Present(c) == SelectSeq(c, LAMBDA x : x # NaN)
Abs1(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Total(_), TotalSq(_)
Total(c)   == IF c = <<>> THEN 0 ELSE Head(c) + Total(Tail(c))
TotalSq(c) == IF c = <<>> THEN 0 ELSE Head(c) * Head(c) + TotalSq(Tail(c))

MinOf(c) == CHOOSE v \in {c[i] : i \in 1 .. Len(c)} : \A i \in 1 .. Len(c) : v <= c[i]
MaxOf(c) == CHOOSE v \in {c[i] : i \in 1 .. Len(c)} : \A i \in 1 .. Len(c) : c[i] <= v
\* the k-th smallest
Kth(c, k) == CHOOSE v \in {c[i] : i \in 1 .. Len(c)} :
                /\ Cardinality({i \in 1 .. Len(c) : c[i] < v}) < k
                /\ Cardinality({i \in 1 .. Len(c) : c[i] <= v}) >= k
\* twice the median
Med2(c) == LET n == Len(c) IN IF n % 2 = 1 THEN 2 * Kth(c, (n + 1) \div 2) ELSE Kth(c, n \div 2) + Kth(c, n \div 2 + 1)
\* n^2 times the population variance
Var(c) == Len(c) * TotalSq(c) - Total(c) * Total(c)

\* written values, rounded to units
IsMedW(c, v)  == Abs1(2 * v - Med2(c)) <= 1
IsMeanW(c, v) == 2 * Abs1(Len(c) * v - Total(c)) <= Len(c)
IsStdW(c, v)  == LET n2 == Len(c) * Len(c) IN
                 /\ v >= 0
                 /\ v > 0 => (2 * v - 1) * (2 * v - 1) * n2 <= 4 * Var(c)
                 /\ 4 * Var(c) <= (2 * v + 1) * (2 * v + 1) * n2
=============================================================================
