----------------------------- MODULE Trace_Fit -----------------------------
(***************************************************************************)
(* Validates recorded fits of one Model.  Locations are lattice points.    *)
(* Events:                                                                 *)
(*   fit   obs = <<x, y, h, s>>, wells = <<x, y, m>>, org, H, L, lna2;      *)
(*         c = coefficients in 10^-5, cov = covariance * 4 L^2 normalized,  *)
(*         in 10^-7 (<<>> if not applicable); take = the model's            *)
(*         coefficients and origin are now those of the fit; err            *)
(*   ext   as fit, where observation k has next to no deviation (heavy) or  *)
(*         an immense one                                                  *)
(*   exact c = the regional flow that the heads were computed from, g = the *)
(*         one the fit gave back, in 10^-4                                  *)
(*   low   a fit with an observation at or below the base: err, kept = the  *)
(*         model is unchanged                                               *)
(***************************************************************************)
EXTENDS Fit, TraceKit
Aq == INSTANCE Aquifer

FInit(t) == 0
FNext(t, s, e) == s + 1

Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}

FFail(t, s, e) ==
    CASE e.op = "fit" ->
            Mk({"C16"}, "fitting ended with " \o e.err, e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            LET n  == Len(e.obs)
                A  == [i \in 1 .. n |-> Regressors(e.obs[i][1] - e.org[1], e.obs[i][2] - e.org[2])]
                w  == [i \in 1 .. n |-> Weight(e.obs[i][3], e.obs[i][4], e.H, e.L)]
                \* in 10^-4
                r  == [i \in 1 .. n |-> PotEv(e.obs[i][3], e.obs[i][4], e.H) * 10000
                           - Aq!WellsPotential(e.wells, e.lna2, e.obs[i][1], e.obs[i][2]) \div 100
                           - DotSeq(A[i], e.c) \div 10]
                NC(k, m) == SumOver([j \in 1 .. 6 |-> Normal(A, w, k, j) * e.cov[j][m]], 6)
                NS(k)    == SumOver([j \in 1 .. 6 |-> Abs(Normal(A, w, k, j))], 6)
            IN
            Mk({"C16"}, "the coefficients minimize the weighted squared differences",
               \A k \in 1 .. 6 : Abs(Moment(A, w, r, k)) <= 6 * MomentScale(A, w, k))
       \cup Mk({"C16"}, "the covariance is that of the estimate",
               e.cov # <<>> => \A k, m \in 1 .. 6 : Abs(NC(k, m) - (IF k = m THEN 10000000 ELSE 0)) <= NS(k) + 100)
       \cup Mk({"C16"}, "the model takes over the fitted coefficients and origin", e.take)
      [] e.op = "ext" ->                \* all confined, of one deviation but for observation k
            Mk({"C16"}, "fitting ended with " \o e.err, e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            LET n  == Len(e.obs)
                A  == [i \in 1 .. n |-> Regressors(e.obs[i][1] - e.org[1], e.obs[i][2] - e.org[2])]
                r  == [i \in 1 .. n |-> PotEv(e.obs[i][3], 1, e.H) * 10000
                           - Aq!WellsPotential(e.wells, e.lna2, e.obs[i][1], e.obs[i][2]) \div 100
                           - DotSeq(A[i], e.c) \div 10]
            IN
            (IF e.heavy THEN
             Mk({"C16"}, "an observation beyond doubt is reproduced", Abs(r[e.k]) <= 12)
             \cup Mk({"C16"}, "the others are balanced about it",
                     \A j \in 1 .. 5 : Abs(HeavyMoment(A, r, e.k, j)) <= 6 * HeavyScale(A, e.k, j) + 6)
             ELSE
             Mk({"C16"}, "an observation that says nothing has no influence",
                \A j \in 1 .. 6 : Abs(LightMoment(A, r, e.k, j)) <= 6 * LightScale(A, e.k, j) + 6))
       \cup Mk({"C16"}, "the model takes over the fitted coefficients and origin", e.take)
      [] e.op = "exact" ->
            Mk({"C16"}, "fitting ended with " \o e.err, e.err = "")
       \cup Mk({"C16"}, "heads that a regional flow reproduces exactly give it back",
               e.err = "" => \A k \in 1 .. 6 : Abs(e.g[k] - e.c[k] * 10000) <= 2)
       \cup Mk({"C16"}, "the model takes over the fitted coefficients and origin", e.take)
      [] e.op = "low" ->
            Mk({"C16"}, "an observation at or below the base is refused with a range error", e.err = "RangeError")
       \cup Mk({"C16"}, "a refused fit leaves the model unchanged", e.kept)
=============================================================================
