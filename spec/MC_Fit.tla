------------------------------- MODULE MC_Fit -------------------------------
(* A line fitted to 3 weighted observations: whatever the data, the estimate *)
(* that satisfies the normal equations is the unique minimum; exact data are *)
(* reproduced; a refused observation changes nothing.                        *)
EXTENDS Fit, TLC
CONSTANTS Xs, Hs, Sds, H, C, Squared
VARIABLES data, coef, ph
vars == <<data, coef, ph>>

None == <<0, 0>>
Init == data = <<>> /\ coef = None /\ ph = "collect"
Collect == /\ ph = "collect" /\ Len(data) < 3
           /\ \E x \in {x \in Xs : data = <<>> \/ x >= data[Len(data)][1]}, h \in Hs, s \in Sds : data' = Append(data, <<x, h, s>>)
           /\ UNCHANGED <<coef, ph>>
A == [i \in 1 .. Len(data) |-> <<data[i][1], 1>>]
w == [i \in 1 .. Len(data) |-> LET v == Weight(data[i][2], data[i][3], H, 6) IN IF Squared THEN v ELSE 6 \div Tau(data[i][2], data[i][3], H)]
res(c) == [i \in 1 .. Len(data) |-> PotEv(data[i][2], data[i][3], H) - DotSeq(A[i], c)]
Regular == \E i, j \in 1 .. Len(data) : data[i][1] # data[j][1]
Low == \E i \in 1 .. Len(data) : data[i][2] <= 0
Solves(c) == \A k \in 1 .. 2 : Moment(A, w, res(c), k) = 0
Cands == (-C .. C) \X (-C .. C)
FitIt == /\ ph = "collect" /\ Len(data) = 3 /\ ~Low /\ Regular
         /\ \E c \in Cands : Solves(c) /\ coef' = c
         /\ ph' = "fitted" /\ UNCHANGED data
Refuse == ph = "collect" /\ Len(data) = 3 /\ Low /\ ph' = "refused" /\ UNCHANGED <<data, coef>>
Next == Collect \/ FitIt \/ Refuse
Spec == Init /\ [][Next]_vars

TrueW == [i \in 1 .. Len(data) |-> Weight(data[i][2], data[i][3], H, 6)]
Minimal == ph = "fitted" => \A c \in Cands : c # coef => Objective(TrueW, res(c)) > Objective(TrueW, res(coef))
ExactDataReproduced ==
    (Len(data) = 3 /\ ~Low /\ Regular) =>
        \A c \in Cands : (\A i \in 1 .. 3 : res(c)[i] = 0) => Solves(c)
RefusedUnchanged == ph = "refused" => coef = None
\* the covariance is that of a linear estimate: Normal is symmetric and positive
NormalPositive == (Len(data) = 3 /\ ~Low /\ Regular) =>
    /\ Normal(A, w, 1, 2) = Normal(A, w, 2, 1)
    /\ Normal(A, w, 1, 1) * Normal(A, w, 2, 2) > Normal(A, w, 1, 2) * Normal(A, w, 1, 2)
=============================================================================
