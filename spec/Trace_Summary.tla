--------------------------- MODULE Trace_Summary ---------------------------
(***************************************************************************)
(* Validates tables of statistics (C24).  Event                            *)
(*   table  cols = the values of each column; err; names, given = written  *)
(*          and given names; title = the title is there; cnt, min, med,    *)
(*          max, avg, std = the written rows; dec, asked = written and     *)
(*          requested decimals (-1 where the format has none)              *)
(*   log    the same for the table in the log of a run; coarse = the       *)
(*          columns in coarser units, cstd = the deviations in these       *)
(***************************************************************************)
EXTENDS Summary, TraceKit
YInit(t) == [n |-> 0]
YNext(t, s, e) == [s EXCEPT !.n = @ + 1]
Mk(clause, cond) == IF cond THEN {} ELSE {<<"C24", clause>>}
AllCols(e, row, Ok(_, _)) == Len(row) = Len(e.cols) /\ \A j \in 1 .. Len(e.cols) : j <= Len(row) => Ok(Present(e.cols[j]), row[j])
YFail(t, s, e) ==
    Mk("the table is made (" \o e.err \o ")", e.err = "")
    \cup IF e.err # "" THEN {} ELSE
         Mk("the names stand over their columns", e.names = e.given)
    \cup Mk("the title is there", e.title)
    \cup Mk("the count of the values that are there", AllCols(e, e.cnt, LAMBDA c, v : v = Len(c)))
    \cup Mk("the minimum", AllCols(e, e.min, LAMBDA c, v : v = MinOf(c)))
    \cup Mk("the median", AllCols(e, e.med, IsMedW))
    \cup Mk("the maximum", AllCols(e, e.max, LAMBDA c, v : v = MaxOf(c)))
    \cup Mk("the mean", AllCols(e, e.avg, IsMeanW))
    \cup Mk("the population standard deviation",
            IF e.op = "table" THEN AllCols(e, e.std, IsStdW)
            ELSE Len(e.std) = Len(e.cols) /\ \A j \in 1 .. Len(e.coarse) : \E d \in -1 .. 1 : IsStdW(e.coarse[j], e.cstd[j] + d))
    \cup Mk("the requested formats", e.dec = e.asked)
=============================================================================
