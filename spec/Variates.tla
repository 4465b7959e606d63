------------------------------ MODULE Variates ------------------------------
(***************************************************************************)
(* Distributions: a constant <<v>>, a uniform <<min, max>> or a triangular *)
(* <<min, mode, max>>, in integers (quanta of the parameter concerned).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ordered(d) == \A i \in 1 .. (Len(d) - 1) : d[i] <= d[i+1]
Within(d, lb, ub) == lb <= d[1] /\ d[Len(d)] <= ub
\* accepted exactly if ordered and within the bounds (closed), and of length 1 .. 3
Valid(d, lb, ub) == Len(d) \in 1 .. 3 /\ Ordered(d) /\ Within(d, lb, ub)
Valid0(d) == Len(d) \in 1 .. 3 /\ Ordered(d)

Min(d) == d[1]
Max(d) == d[Len(d)]
InSupport(d, v) == Min(d) <= v /\ v <= Max(d)

RECURSIVE SumSeq(_)
SumSeq(d) == IF Len(d) = 0 THEN 0 ELSE Head(d) + SumSeq(Tail(d))

\* v (rounded to quanta) is the mean
IsMean(d, v) == LET e == Len(d) * v - SumSeq(d) IN -Len(d) <= e /\ e <= Len(d)

(***************************************************************************)
(* The law.  The support is cut into 20 equal cells; Cell(d, i) is         *)
(* <<numerator, denominator>> of the probability of cell i (0 .. 19).      *)
(* Triangular laws are used with their mode on a cell boundary m.          *)
(***************************************************************************)
ModeCell(d) == ((d[2] - d[1]) * 20) \div (d[3] - d[1])
OnCells(d)  == Len(d) = 3 => ModeCell(d) * (d[3] - d[1]) = (d[2] - d[1]) * 20
Cell(d, i) ==
    IF Len(d) = 2 THEN <<1, 20>>
    ELSE LET m == ModeCell(d) IN
         IF i < m THEN <<2*i + 1, 20*m>> ELSE <<2*(19 - i) + 1, 20*(20 - m)>>

\* k hits in n independent trials of probability p[1]/p[2] are not absurd: within
\* 6.5 standard deviations (a chance below 10^-10), rounding included
Plausible(k, n, p) ==
    LET d == (k * p[2] - n * p[1]) \div p[2]
        v == (n * p[1]) \div p[2] + 1
    IN  d * d <= 43 * v + 60

\* the probability of the cells 0 .. i together
Cum(d, i) ==
    IF Len(d) = 2 THEN <<i + 1, 20>>
    ELSE LET m == ModeCell(d) IN
         IF i < m THEN <<(i + 1) * (i + 1), 20*m>>
         ELSE <<20 * (20 - m) - (19 - i) * (19 - i), 20 * (20 - m)>>

FollowsLaw(d, hist, n) ==
    /\ \A i \in 0 .. 19 : Plausible(hist[i+1], n, Cell(d, i))
    /\ \A i \in 0 .. 19 : Plausible(SumSeq(SubSeq(hist, 1, i + 1)), n, Cum(d, i))

\* two properties with counts a and b in n trials occurred together ab times:
\* compatible with independence
Independent(ab, a, b, n) ==
    LET d == ab - (a * (b * 1)) \div n IN d * d <= 43 * (n \div 16 + 1) + 60
=============================================================================
