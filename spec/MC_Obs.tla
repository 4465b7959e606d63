------------------------------- MODULE MC_Obs -------------------------------
(* All lists of up to MaxObs observations on a small set of positions.       *)
EXTENDS Obs, TLC
CONSTANTS MaxObs, Px, Py, Heads, Stds, Buffer, AdjacentOnly, FirstWellOnly
Wells == << <<0, 0>>, <<24, 8>> >>
ObsSet == {<<x, y, h, s>> : x \in Px, y \in Py, h \in Heads, s \in Stds}

VARIABLES obs, rem, out, ph, drop
vars == <<obs, rem, out, ph, drop>>

Init == /\ obs \in UNION {[1 .. n -> ObsSet] : n \in 1 .. MaxObs}
        /\ rem = <<>> /\ out = <<>> /\ ph = 1 /\ drop = {}

Near(o) == IF FirstWellOnly THEN NearWell(o, <<Wells[1]>>, Buffer) ELSE NearWell(o, Wells, Buffer)
TakeOne == /\ ph <= Len(obs)
           /\ ph' = ph + 1
           /\ IF Near(obs[ph]) THEN drop' = drop \cup {ph} /\ UNCHANGED rem
                               ELSE rem' = Append(rem, ph) /\ UNCHANGED drop
           /\ UNCHANGED <<obs, out>>

\* (wrong variant: only the neighbours in the list are compared)
AdjGroup == LET g == Group(obs, rem)
                k == CHOOSE k \in 1 .. Len(g) : /\ \A j \in 1 .. k : rem[j] = g[j]
                                                /\ (k = Len(g) \/ rem[k + 1] # g[k + 1])
            IN  SubSeq(g, 1, k)
MergeOne == /\ ph > Len(obs) /\ rem # <<>>
            /\ LET g == IF AdjacentOnly THEN AdjGroup ELSE Group(obs, rem)
               IN  /\ out' = Append(out, g)
                   /\ rem' = SelectSeq(rem, LAMBDA j : \A k \in 1 .. Len(g) : g[k] # j)
            /\ UNCHANGED <<obs, ph, drop>>
Next == TakeOne \/ MergeOne
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ph > Len(obs) /\ rem = <<>>
Elems(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN W(obs[i]) + SumSet(S \ {i})
RECURSIVE SumOut(_)
SumOut(s) == IF s = <<>> THEN 0 ELSE SumW(obs, s[1]) + SumOut(Tail(s))

----------------------------------------------------------------------------
AgreesWithOperators == Done => /\ out = Groups(obs, Kept(obs, Wells, Buffer))
                               /\ drop = Removed(obs, Wells, Buffer)
Partition == Done => /\ UNION {Elems(out[k]) : k \in 1 .. Len(out)} = (1 .. Len(obs)) \ drop
                     /\ \A k, l \in 1 .. Len(out) : k # l => Elems(out[k]) \cap Elems(out[l]) = {}
ExactlyNearOnesDropped == Done => \A i \in 1 .. Len(obs) : (i \in drop) <=> \E k \in 1 .. 2 : D2(obs[i], Wells[k]) <= Buffer * Buffer
NoTwoRetainedClose == \A k, l \in 1 .. Len(out) : k < l => D2(obs[out[k][1]], obs[out[l][1]]) >= OneMetre * OneMetre
OrderKept == \A k \in 1 .. Len(out) - 1 : out[k][1] < out[k + 1][1]
InformationConserved == Done => SumOut(out) = SumSet((1 .. Len(obs)) \ drop)
\* minimum variance: no member has a smaller variance than the average
NotWorse == \A k \in 1 .. Len(out) : \A i \in 1 .. Len(out[k]) : SumW(obs, out[k]) >= W(obs[out[k][i]])
\* moving a duplicate elsewhere in the list (behind its leader) changes nothing but the order within its group
PositionIrrelevant ==
    (Done /\ Len(obs) = MaxObs /\ MaxObs >= 3) =>
        LET sw == [obs EXCEPT ![2] = obs[3], ![3] = obs[2]]
            lead(o) == {Estimate(o, g) : g \in Elems(Groups(o, Kept(o, Wells, Buffer)))}
        IN  (~NearWell(obs[1], Wells, Buffer) /\ (Duplicate(obs[1], obs[2]) \/ Duplicate(obs[1], obs[3]))) => lead(sw) = lead(obs)
Terminates == <>Done
=============================================================================
