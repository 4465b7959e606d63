---------------------------- MODULE Trace_Report ----------------------------
(***************************************************************************)
(* Validates what was reported about real fields (C22).  v, tot = the      *)
(* accumulated weights row by row and the total weight, as integers.       *)
(*   impact  pr (times tot), cells (area in cells), res = 10^-6 residual   *)
(*   zone    cells = reported area in cells; filled = the cells drawn      *)
(*   refuse  a field without realizations                                  *)
(*   log     rows <<1000 pr, cells, area and acres as pairs (written, by   *)
(*           the cells) in 1/100 of the last digit>>; one = the lines of a *)
(*           deterministic run <<kind, written, by the cells>>             *)
(***************************************************************************)
EXTENDS Report, TraceKit
QInit(t) == [n |-> 0]
QNext(t, s, e) == [s EXCEPT !.n = @ + 1]
Mk(clause, cond) == IF cond THEN {} ELSE {<<"C22", clause>>}
AbsQ(x) == IF x < 0 THEN -x ELSE x
Rounded(a, b) == AbsQ(a - b) <= 51
\* a probability v of T written in thousandths
Written(w, v, T) == LET d == AbsQ(w * T - 1000 * v) IN d <= T /\ d * 100 <= 51 * T
Exact == {5, 15}
Positive(V) == {v \in {V[i] : i \in 1 .. Len(V)} : v > 0}
ImpactFail(e) == LET I == TLCEval(Impact(e.v)) IN
       Mk("a report is made (" \o e.err \o ")", e.err = "")
  \cup Mk("the field is as it was", e.same)
  \cup IF e.err # "" THEN {} ELSE
       Mk("one entry for every node", Len(e.pr) = Len(I) /\ Len(e.cells) = Len(I))
  \cup Mk("the values are those of the nodes", e.res <= 100)
  \cup Mk("the probabilities in descending order", Len(e.pr) = Len(I) => \A i \in 1 .. Len(I) : e.pr[i] = I[i][1])
  \cup Mk("the area of that many cells", Len(e.cells) = Len(I) => \A i \in 1 .. Len(I) : e.cells[i] = I[i][2])
ZoneFail(e) ==
       Mk("an area is reported (" \o e.err \o ")", e.err = "")
  \cup Mk("the field is as it was", e.same)
  \cup IF e.err # "" THEN {} ELSE
       Mk("the area is that of the captured cells", e.cells = Cardinality(Cells(e.v)) /\ e.res <= 100)
LogFail(e) ==
       Mk("the run ends (" \o e.err \o ")", e.err = "")
  \cup IF e.err # "" THEN {} ELSE
  IF e.det THEN
       Mk("area in square metres and in acres", Len(e.one) = 6 /\ {e.one[1], e.one[4]} = {0, 1})
  \cup Mk("the area is that of the captured cells", Len(e.one) = 6 => Rounded(e.one[2], e.one[3]) /\ Rounded(e.one[5], e.one[6]))
  ELSE Mk("nineteen rows", Len(e.rows) = 19)
  \cup Mk("the first entry not above the threshold",
          \A k \in 1 .. 19 : (k <= Len(e.rows) /\ HasRow(e.v, e.tot, k)) =>
             LET r == e.rows[k] IN
             \/ LET w == Row(e.v, e.tot, k) IN Written(r[1], w[1], e.tot) /\ r[2] = w[2]
             \/ k \notin Exact /\ HasRowB(e.v, e.tot, k)
                /\ LET w == RowB(e.v, e.tot, k) IN Written(r[1], w[1], e.tot) /\ r[2] = w[2])
  \cup Mk("the area of its cells in square metres and acres",
          \A k \in 1 .. Len(e.rows) : Rounded(e.rows[k][3], e.rows[k][4]) /\ Rounded(e.rows[k][5], e.rows[k][6]))
QFail(t, s, e) ==
    CASE e.op = "impact" -> ImpactFail(e)
      [] e.op = "zone" -> ZoneFail(e)
      [] e.op = "log" -> LogFail(e)
      [] e.op = "refuse" -> Mk("a field without realizations is refused (" \o e.what \o ")", e.err \notin {"", "Hang"})
                            \cup Mk("a refusal changes nothing", e.same)
=============================================================================
