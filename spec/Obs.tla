-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* Preparation of the observations (utilities.filter_obs).                 *)
(* An observation is <<x, y, h, s>>: position in ticks (1/8 m), head, and  *)
(* standard deviation s in {1, 2, 3, 6} units, so that the inverse         *)
(* variance (6/s)^2 is an integer.                                         *)
(*                                                                         *)
(* The state machine: the observations are taken one at a time; each is    *)
(* dropped (near a well) or kept; then, repeatedly, the first remaining    *)
(* one absorbs all remaining ones closer than one metre to it.             *)
(***************************************************************************)
EXTENDS Lattice

OneMetre == 8

D2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
W(o) == (6 \div o[4]) * (6 \div o[4])

NearWell(o, wells, buffer) == \E i \in 1 .. Len(wells) : D2(o, wells[i]) <= buffer * buffer
Duplicate(a, b) == D2(a, b) < OneMetre * OneMetre

RECURSIVE SelectIdx(_, _, _)
\* indices i of obs (ascending) that satisfy P[i]
SelectIdx(P, n, i) == IF i > n THEN <<>>
                      ELSE (IF P[i] THEN <<i>> ELSE <<>>) \o SelectIdx(P, n, i + 1)

Kept(obs, wells, buffer) ==
    SelectIdx([i \in 1 .. Len(obs) |-> ~NearWell(obs[i], wells, buffer)], Len(obs), 1)
Removed(obs, wells, buffer) ==
    {i \in 1 .. Len(obs) : NearWell(obs[i], wells, buffer)}

----------------------------------------------------------------------------
(* Merging.  rem is a sequence of indices into obs.                        *)
Group(obs, rem) ==
    SelectSeq(rem, LAMBDA j : j = rem[1] \/ Duplicate(obs[rem[1]], obs[j]))
Others(obs, rem) ==
    SelectSeq(rem, LAMBDA j : ~(j = rem[1] \/ Duplicate(obs[rem[1]], obs[j])))

RECURSIVE Groups(_, _)
Groups(obs, rem) == IF rem = <<>> THEN <<>>
                    ELSE <<Group(obs, rem)>> \o Groups(obs, Others(obs, rem))

RECURSIVE SumW(_, _)
SumW(obs, g) == IF g = <<>> THEN 0 ELSE W(obs[g[1]]) + SumW(obs, Tail(g))
RECURSIVE SumHW(_, _)
SumHW(obs, g) == IF g = <<>> THEN 0 ELSE obs[g[1]][3] * W(obs[g[1]]) + SumHW(obs, Tail(g))

\* an estimate: position of the first, total inverse variance, weighted head sum
Estimate(obs, g) == [x |-> obs[g[1]][1], y |-> obs[g[1]][2], w |-> SumW(obs, g), hw |-> SumHW(obs, g), n |-> Len(g)]
=============================================================================
