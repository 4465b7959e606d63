---------------------------- MODULE MC_Variates ----------------------------
(***************************************************************************)
(* The operators of Variates on all small distributions, and a step of     *)
(* widening or narrowing the bounds, or of moving a member.                *)
(***************************************************************************)
EXTENDS Variates, TLC
CONSTANTS Vals, MaxLen, ModeEverywhere

Seqs == UNION {[1 .. n -> Vals] : n \in 0 .. MaxLen}
VARIABLES d, lb, ub
vars == <<d, lb, ub>>
Init == d \in Seqs /\ lb \in Vals /\ ub \in Vals
Widen == /\ Len(d) > 0 /\ Valid(d, lb, ub)
         /\ \/ (lb - 1) \in Vals /\ lb' = lb - 1 /\ UNCHANGED <<d, ub>>
            \/ (ub + 1) \in Vals /\ ub' = ub + 1 /\ UNCHANGED <<d, lb>>
Next == Widen
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the law in cells, for a triangle with its mode on a boundary
Tri == {<<0, m, 20>> : m \in 1 .. 19}
WrongCell(x, i) == IF ModeEverywhere THEN Cell(x, i) ELSE <<1, 20>>
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k < 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum20(f) == SumTo(f, 19)
Common(x) == 20 * ModeCell(x) * (20 - ModeCell(x))
P(x, i) == LET c == WrongCell(x, i) IN (c[1] * Common(x)) \div c[2]
First == d = <<>> /\ lb = 0 /\ ub = 0     \* (once is enough)
CellsSumToOne == First => \A x \in Tri : Sum20([i \in 0 .. 19 |-> P(x, i)]) = Common(x)
\* three times twice the mean in cells, against 2 (0 + mode + 20): within the curvature of the cells
MeanOfCells == First => \A x \in Tri :
    LET e == 3 * Sum20([i \in 0 .. 19 |-> (2 * i + 1) * P(x, i)]) - 2 * (x[2] + 20) * Common(x) IN -2 * Common(x) <= e /\ e <= 2 * Common(x)
CumIsSumOfCells == First => \A x \in Tri : \A i \in 0 .. 19 :
    LET c == Cum(x, i) IN c[1] * Common(x) = c[2] * SumTo([j \in 0 .. 19 |-> P(x, j)], i)
ModeIsHighest == First => \A x \in Tri : \A i \in 0 .. 19 : P(x, i) <= P(x, IF i < ModeCell(x) THEN ModeCell(x) - 1 ELSE ModeCell(x))

\* accepted: nonempty support inside the bounds that contains the mean
SupportNonempty == Valid(d, lb, ub) => /\ \E v \in Vals : InSupport(d, v)
                                       /\ \A v \in Vals : InSupport(d, v) => lb <= v /\ v <= ub
                                       /\ \A i \in 1 .. Len(d) : InSupport(d, d[i])
MeanInSupport == Valid0(d) => \E v \in Min(d) .. Max(d) : IsMean(d, v)
RefusedOtherwise == ~Valid(d, lb, ub) =>
    \/ Len(d) \notin 1 .. 3
    \/ (\E i \in 1 .. (Len(d) - 1) : d[i] > d[i+1])
    \/ (\E i \in 1 .. Len(d) : d[i] < lb \/ d[i] > ub)
ValidStays == [][Valid(d, lb, ub) => Valid(d', lb', ub')]_vars
=============================================================================
