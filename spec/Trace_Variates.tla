--------------------------- MODULE Trace_Variates ---------------------------
(***************************************************************************)
(* Validates recorded uses of the distributions (C12).  Events:            *)
(*   case   d, lb, ub (integers, in an arbitrary affine scale; -1000 and   *)
(*          1000 are the infinities); scalar = d given as a number;        *)
(*          acc = isdistribution ("yes", "no" or an error); sam = samples  *)
(*          (10^-6), serr; mean (in sixths), merr                          *)
(*   odd    something that is no distribution: acc, serr, merr, of length  *)
(*          other = neither 2 nor 3                                        *)
(*   law    hist of n samples of d, in 20 cells; pairs = consecutive       *)
(*          samples: <<both above, above, above, n>>                       *)
(***************************************************************************)
EXTENDS Variates, TraceKit, FiniteSets
VInit(t) == [d |-> <<>>]
VNext(t, s, e) == s
Mk(clause, cond) == IF cond THEN {} ELSE {<<"C12", clause>>}

SixSum(d) == 6 * SumSeq(d)
VFail(t, s, e) ==
    CASE e.op = "case" ->
            LET v == IF e.scalar THEN e.lb <= e.d[1] /\ e.d[1] <= e.ub ELSE Len(e.d) # 1 /\ Valid(e.d, e.lb, e.ub) IN
            Mk("accepted exactly if ordered and within the bounds", e.acc = IF v THEN "yes" ELSE "no")
       \cup (IF (e.scalar \/ Len(e.d) \in {2, 3}) /\ Ordered(e.d) THEN
                 Mk("every ordered distribution can be sampled (" \o e.serr \o ")", e.serr = "")
            \cup Mk("every sample lies in the support", e.serr = "" =>
                    \A i \in 1 .. Len(e.sam) : Min(e.d) * 1000000 <= e.sam[i] /\ e.sam[i] <= Max(e.d) * 1000000)
            \cup Mk("the mean is that of the law (" \o e.merr \o ")", e.merr = "" /\ Len(e.d) * e.mean = SixSum(e.d))
             ELSE {})
       \cup Mk("any other length is refused by sampling and averaging",
               (~e.scalar /\ Len(e.d) \notin {2, 3}) => e.serr # "" /\ e.merr # "")
      [] e.op = "odd" ->
            Mk("what is no distribution is not accepted", e.acc # "yes")
       \cup Mk("any other length is refused by sampling and averaging", e.other => e.serr # "" /\ e.merr # "")
      [] e.op = "law" ->
            Mk("every sample lies in the support", e.out = 0)
       \cup Mk("the samples follow the law", FollowsLaw(e.d, e.hist, e.n))
       \cup Mk("the samples are independent",
               \A i \in 1 .. Len(e.pairs) : Independent(e.pairs[i][1], e.pairs[i][2], e.pairs[i][3], e.pairs[i][4]))
=============================================================================
