----------------------------- MODULE Trace_Obs -----------------------------
(***************************************************************************)
(* Validates recorded calls of filter_obs.  Event `filter`:                *)
(*   obs, wells, buffer   the arguments, in ticks                          *)
(*   res   the returned observations: <<x, y, head in 10^-3 units,         *)
(*         variance in 10^-6 units^2, verbatim>>; verbatim = it equals one  *)
(*         of the observations given in every component                    *)
(*   same  the lists passed in are unmodified, err                         *)
(*   logged  indices of observations whose removal is in the log           *)
(*   dups  indices of observations that are in the log as duplicates       *)
(*   avg, act, nact  averages and active observations in the log, and how  *)
(*         many of these it announces                                      *)
(***************************************************************************)
EXTENDS Obs, TraceKit

OInit(t) == 0
ONext(t, s, e) == s + 1

Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}

\* a written observation is the average of the group g
IsEstimate(obs, g, r) ==
    LET E == Estimate(obs, g) IN
    r[1] = E.x /\ r[2] = E.y /\ Abs(r[3] * E.w - 1000 * E.hw) <= E.w /\ Abs(r[4] * E.w - 36000000) <= 3 * E.w

OFail(t, s, e) ==
    Mk({"C18", "C19"}, "filtering ended with " \o e.err, e.err = "")
  \cup IF e.err # "" THEN {} ELSE
    LET kept == Kept(e.obs, e.wells, e.buffer)
        gone == Removed(e.obs, e.wells, e.buffer)
        gs   == Groups(e.obs, kept)
        n    == Len(gs)
        Single(k) == Len(gs[k]) = 1
        \* every retained location is one of the kept observations', and all kept ones are represented
        rloc == {<<e.res[i][1], e.res[i][2]>> : i \in 1 .. Len(e.res)}
        far(o) == \A i \in 1 .. Len(kept) : D2(o, e.obs[kept[i]]) >= OneMetre * OneMetre
        \* the sequence of singles in order, which does not depend on how groups are merged
        lone == SelectSeq(kept, LAMBDA i : \A j \in 1 .. Len(kept) : kept[j] = i \/ ~Duplicate(e.obs[i], e.obs[kept[j]]))
        vres == SelectSeq(e.res, LAMBDA r : \E i \in 1 .. Len(lone) : r[1] = e.obs[lone[i]][1] /\ r[2] = e.obs[lone[i]][2])
    IN
    Mk({"C18"}, "an observation within the buffer of a well was retained",
       \A p \in rloc : \A i \in gone : far(e.obs[i]) => <<e.obs[i][1], e.obs[i][2]>> # p)
  \cup Mk({"C18"}, "an observation farther than the buffer from every well was removed",
       \A i \in 1 .. Len(kept) : \E p \in rloc : D2(e.obs[kept[i]], p) < OneMetre * OneMetre)
  \cup Mk({"C18"}, "the others keep their values and their order",
       /\ Len(vres) = Len(lone)
       /\ \A i \in 1 .. Len(lone) : LET o == e.obs[lone[i]] IN
             /\ vres[i][5] /\ vres[i][1] = o[1] /\ vres[i][2] = o[2] /\ vres[i][3] = 1000 * o[3])
  \cup Mk({"C18", "C19"}, "the lists passed in are not modified", e.same)
  \cup Mk({"C18", "C25"}, "every removal is logged", \A i \in gone : i \in {e.logged[k] : k \in 1 .. Len(e.logged)})
  \cup Mk({"C18", "C25"}, "only removals are logged as removals", \A k \in 1 .. Len(e.logged) : e.logged[k] \in gone)
  \cup Mk({"C19"}, "as many observations as there are groups of duplicates are retained, in order",
       /\ Len(e.res) = n
       /\ \A k \in 1 .. n : <<e.res[k][1], e.res[k][2]>> = <<e.obs[gs[k][1]][1], e.obs[gs[k][1]][2]>>)
  \cup IF Len(e.res) # n THEN {} ELSE
    Mk({"C19"}, "an observation without duplicates is kept as it is", \A k \in 1 .. n : Single(k) => e.res[k][5])
  \cup Mk({"C19"}, "the merged head is the average weighted by inverse variance",
       \A k \in 1 .. n : LET E == Estimate(e.obs, gs[k]) IN Abs(e.res[k][3] * E.w - 1000 * E.hw) <= E.w)
  \cup Mk({"C19"}, "the merged standard deviation is that of the average",
       \A k \in 1 .. n : LET E == Estimate(e.obs, gs[k]) IN Abs(e.res[k][4] * E.w - 36000000) <= 3 * E.w)
  \cup Mk({"C19"}, "no two retained observations are closer than one metre",
       \A i, j \in 1 .. Len(e.res) : i < j => D2(e.res[i], e.res[j]) >= OneMetre * OneMetre)
  \cup Mk({"C25"}, "the averaged observations are logged, with their average",
       LET G == SelectSeq(gs, LAMBDA g : Len(g) > 1) IN
       /\ Len(e.avg) = Len(G)
       /\ \A k \in 1 .. Min2(Len(G), Len(e.avg)) : IsEstimate(e.obs, G[k], e.avg[k])
       /\ \A k \in 1 .. Len(G) : \A i \in 1 .. Len(G[k]) : G[k][i] \in {e.dups[m] : m \in 1 .. Len(e.dups)}
       /\ \A m \in 1 .. Len(e.dups) : \E k \in 1 .. Len(G) : \E i \in 1 .. Len(G[k]) : G[k][i] = e.dups[m])
  \cup Mk({"C25"}, "the active observations are logged as they are used",
       /\ e.nact = Len(e.res) /\ Len(e.act) = Len(e.res)
       /\ \A k \in 1 .. Min2(Len(e.res), Len(e.act)) : e.act[k] = SubSeq(e.res[k], 1, 4))
=============================================================================
