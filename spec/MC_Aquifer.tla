---------------------------- MODULE MC_Aquifer ----------------------------
(* A model whose wells and regional flow change at will; at every location   *)
(* of a small window the laws relate potential, discharge and head.          *)
EXTENDS Aquifer
CONSTANTS R, Steps, Coefs, Rates, MaxH, Flip
Sign == IF Flip THEN -1 ELSE 1
VARIABLES reg, wells, n
vars == <<reg, wells, n>>

Init == reg = <<0, 0, 0, 0, 0, 0>> /\ wells = <<>> /\ n = 0
SetReg == \E k \in 1 .. 6, v \in Coefs \cup {-3} : reg' = [reg EXCEPT ![k] = v] /\ UNCHANGED wells
AddWell == /\ Len(wells) < 2
           /\ \E i \in {-R - 1, 0}, j \in {R + 1}, m \in Rates \cup {-1} : wells' = Append(wells, <<i, j, m>>)
           /\ UNCHANGED reg
Swap == Len(wells) = 2 /\ wells' = <<wells[2], wells[1]>> /\ UNCHANGED reg
Next == n < Steps /\ n' = n + 1 /\ (SetReg \/ AddWell \/ Swap)
Spec == Init /\ [][Next]_vars

Org == <<1, 2>>
Pts == {<<x, y>> \in (-R .. R) \X (-R .. R) : \A k \in 1 .. Len(wells) : R2(wells[k], x, y) > 8}
Pot(p) == Regional(reg, Org, p[1], p[2]) * Micro + WellsPotential(wells, 0, p[1], p[2])
Q(c, p) == Sign * Discharge(reg, Org, wells, c, p[1], p[2])

----------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* central differences: exact for the quadratic; f''' of m ln r^2 is at most 4 m / r^3
Curv(p) == Sum([k \in 1 .. Len(wells) |->
              LET w == wells[k] r == CHOOSE r \in 1 .. 60 : r*r <= R2(w, p[1], p[2]) /\ (r+1)*(r+1) > R2(w, p[1], p[2])
              IN  (4 * Abs(w[3]) * Micro) \div (3 * (r - 1)*(r - 1)*(r - 1))])
MinusGradient ==
    \A p \in Pts :
        /\ Abs(Pot(<<p[1]+1, p[2]>>) - Pot(<<p[1]-1, p[2]>>) + 2 * Q(1, p)) <= Curv(p) + 50 * Len(wells)
        /\ Abs(Pot(<<p[1], p[2]+1>>) - Pot(<<p[1], p[2]-1>>) + 2 * Q(2, p)) <= Curv(p) + 50 * Len(wells)
Superposition ==
    \A p \in Pts : /\ Pot(p) = Regional(reg, Org, p[1], p[2]) * Micro
                               + Sum([k \in 1 .. Len(wells) |-> WellsPotential(<<wells[k]>>, 0, p[1], p[2])])
                   /\ \A c \in 1 .. 2 : Q(c, p) = Sign * (RegionalDischarge(reg, Org, p[1], p[2])[c] * Micro
                               + Sum([k \in 1 .. Len(wells) |-> WellsDischarge(<<wells[k]>>, c, p[1], p[2])]))
OrderIrrelevant ==
    Len(wells) = 2 => \A p \in Pts : WellsPotential(wells, 0, p[1], p[2]) = WellsPotential(<<wells[2], wells[1]>>, 0, p[1], p[2])
\* heads: strictly increasing, one head per potential, both forms agree at the change
HeadLaw ==
    \A H \in 1 .. MaxH : /\ \A h \in 1 .. 3 * MaxH : PotentialOfHead(h, H) > (IF h = 1 THEN 0 ELSE PotentialOfHead(h - 1, H))
                         /\ H * H = 2 * H * H - H * H
                         /\ \A h \in 1 .. 3 * MaxH : Wet(PotentialOfHead(h, H))
                         /\ \A h \in 1 .. 3 * MaxH : (PotentialOfHead(h, H) < H * H) <=> h < H
\* the expansion used just around the change agrees with the law (H = 1000 units)
AcrossLaw == \A h \in 990 .. 1010 : Abs(HeadAcross(PotentialOfHead(h, 1000) - 1000000) - (h - 1000) * 1000000) <= 12
=============================================================================
