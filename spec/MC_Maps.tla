------------------------------ MODULE MC_Maps ------------------------------
(* A raster is filled cell by cell; what smoothing does to it.              *)
(* Variant "reflect": beyond the edge the raster is mirrored.               *)
EXTENDS Maps, TLC
CONSTANTS NR, NC, Vals, MaxSet, Sds, Variant
VARIABLES m, set
vars == <<m, set>>
Zero == [i \in 1 .. NR |-> [j \in 1 .. NC |-> 0]]
Init == m = Zero /\ set = 0
Fill == /\ set < MaxSet /\ set' = set + 1
        /\ \E i \in 1 .. NR, j \in 1 .. NC, v \in Vals : m[i][j] = 0 /\ m' = [m EXCEPT ![i][j] = v]
Spec == Init /\ [][Fill]_vars

Mirror(r) == [i \in 1 .. 3 * Len(r) |-> IF i <= Len(r) THEN r[Len(r) + 1 - i] ELSE IF i <= 2 * Len(r) THEN r[i - Len(r)] ELSE r[3 * Len(r) + 1 - i]]
B(x, sd) == IF Variant = "reflect"
            THEN LET y == TLCEval([i \in 1 .. NR |-> SubSeq(TLCEval(Blur1(TLCEval(Mirror(x[i])), sd)), NC + 1, 2 * NC)])
                     z == TLCEval(Transpose(y)) IN TLCEval(Transpose([j \in 1 .. NC |-> TLCEval(SubSeq(TLCEval(Blur2(TLCEval(Mirror(z[j])), sd)), NR + 1, 2 * NR))]))
            ELSE Blur(x, sd)
All(x) == SumF([i \in 1 .. Len(x) |-> SumF(x[i], 1, Len(x[i]))], 1, Len(x))
MaxM(x) == CHOOSE v \in UNION {{x[i][j] : j \in 1 .. NC} : i \in 1 .. NR} : \A i \in 1 .. NR, j \in 1 .. NC : x[i][j] <= v
Tol(x) == 3 * NR * NC + All(x)
Bounded == \A sd \in Sds : LET b == B(m, sd) IN \A i \in 1 .. NR, j \in 1 .. NC : 0 <= b[i][j] /\ b[i][j] <= 1001 * MaxM(m) + 2
NothingGained == \A sd \in Sds : All(B(m, sd)) <= 1000 * All(m) + Tol(m)
\* near the edge some of it is lost
EdgeLoses == \A sd \in Sds : (\E i \in {1, NR}, j \in {1, NC} : m[i][j] > 0) => All(B(m, sd)) < 1000 * All(m)
SameBothWays == \A sd \in Sds : LET a == B(m, sd)  b == Transpose(Blur(Transpose(m), sd)) IN
    Variant = "good" => \A i \in 1 .. NR, j \in 1 .. NC : AbsM(a[i][j] - b[i][j]) <= 4 + MaxM(m) \div 20
Mirrored == \A sd \in Sds : LET flip(x) == [i \in 1 .. NR |-> [j \in 1 .. NC |-> x[i][NC + 1 - j]]] IN
    Variant = "good" => flip(B(m, sd)) = B(flip(m), sd)
NoSmoothing == Surface(m, 0) = Thousand(m)
=============================================================================
