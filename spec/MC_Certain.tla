----------------------------- MODULE MC_Certain -----------------------------
(***************************************************************************)
(* A field accumulated from realizations of a small capture zone (the law  *)
(* of MC_Related): of what drives the particles only the time they take    *)
(* is uncertain, from Lo to Hi steps (a porosity).                         *)
(* What:  "good"; "kept" = marks stay for the next realization;            *)
(* "mean" = what is drawn is replaced by more than the longest;            *)
(* "half" = a realization counts where it was not captured before.         *)
(***************************************************************************)
EXTENDS Related
CONSTANTS Spacing, Far, MaxT, MaxU, MaxSteps, Variant, What
VARIABLES conf, zone, last, n, lo, hi, cnt, marks
L == INSTANCE MC_Related
all == <<conf, zone, last, n, lo, hi, cnt, marks>>

Nodes == (-Far .. Far) \X (-Far .. Far)
Certain == lo = hi
At(t) == L!Zone([conf EXCEPT !.t = t])
Init == /\ L!Init
        /\ lo \in 1 .. MaxT /\ hi \in lo .. MaxT
        /\ cnt = [p \in Nodes |-> 0] /\ marks = {}
Realization ==
    /\ n < MaxSteps
    /\ \E t \in lo .. hi :
         LET z == At(IF What = "mean" THEN t + 1 ELSE t)
             m == IF What = "kept" THEN z \cup {q \in Nodes : <<q[1] - Spacing, q[2]>> \in marks} ELSE z
             c == IF What = "half" THEN {p \in z : cnt[p] = 0} ELSE m
         IN /\ cnt' = [p \in Nodes |-> cnt[p] + IF p \in c THEN 1 ELSE 0]
            /\ marks' = m
    /\ n' = n + 1
    /\ UNCHANGED <<conf, zone, last, lo, hi>>
Spec == Init /\ [][Realization]_all

Always == {p \in Nodes : cnt[p] = n}
Ever   == {p \in Nodes : cnt[p] > 0}
Bracketed == n > 0 => AlwaysLost(At(lo), Always) = {} /\ EverAdded(At(hi), Ever) = {}
CertainIsTheZone == (n > 0 /\ Certain) => Always = At(lo) /\ Ever = At(lo)
Whole == \A p \in Nodes : cnt[p] \in 0 .. n
=============================================================================
