----------------------------- MODULE Trace_Maps -----------------------------
(***************************************************************************)
(* Validates what real maps draw (C26).  Events                            *)
(*   map    rows = the accumulated weights (bottom to top), tot = the total*)
(*          weight; sd = smoothing in half cells; x, y = the columns and   *)
(*          rows drawn, in cells from the first node; z = the values drawn,*)
(*          times tot (times 1000 if smoothed); res = residuals in 10^-6;  *)
(*          lines = the contour lines are of the same surface;             *)
(*          groups = the markers [m, p]; target, wells, obs = their places;*)
(*          filled = the cells drawn (deterministic maps)                  *)
(*   model  x, y, z, want = raster, values drawn and those of the model,   *)
(*          2 10^9 = blank / dry                                           *)
(*   refuse a field without realizations                                   *)
(***************************************************************************)
EXTENDS Maps, TraceKit
PInit(t) == [n |-> 0]
PNext(t, s, e) == [s EXCEPT !.n = @ + 1]
Mk(clause, cond) == IF cond THEN {} ELSE {<<"C26", clause>>}
RangeM(f) == {f[i] : i \in DOMAIN f}
NearP(a, b) == AbsM(a[1] - b[1]) <= 1 /\ AbsM(a[2] - b[2]) <= 1
Covers(A, B) == \A a \in A : \E b \in B : NearP(a, b)
SameP(A, B) == Covers(A, B) /\ Covers(B, A)
Group(e, S) == \E g \in RangeM(e.groups) : SameP(RangeM(g.p), S)
\* a kind of marker of its own stands exactly at the places S
MarkersFail(e) == LET W == RangeM(e.wells)  O == RangeM(e.obs)  T == {e.target} IN
       Mk("a mark of its own at the target well", Group(e, T))
  \cup Mk("the wells are marked", \E S \in {W, {w \in W : ~NearP(w, e.target)}} : S = {} \/ Group(e, S))
  \cup Mk("the retained observations are marked", O = {} \/ Group(e, O))
  \cup Mk("nothing else is marked", \A g \in RangeM(e.groups) : Covers(RangeM(g.p), W \cup O))
Consecutive(x, n) == Len(x) = n /\ \A i \in 1 .. n : x[i] = i - 1
MaxRow(m) == LET S == UNION {RangeM(m[i]) : i \in DOMAIN m} IN CHOOSE v \in S : \A w \in S : w <= v
SurfaceOk(e) ==
    IF e.sd = 0 THEN e.z = e.rows
    ELSE LET S == TLCEval(Surface(e.rows, e.sd))
             tol == 12 + MaxRow(e.rows) \div 2
         IN \A i \in 1 .. Len(e.rows) : \A j \in 1 .. e.n : AbsM(e.z[i][j] - S[i][j]) <= tol
MapFail(e) ==
       Mk("a map is drawn (" \o e.err \o ")", e.err = "")
  \cup Mk("the field is as it was", e.same)
  \cup IF e.err # "" THEN {} ELSE
       MarkersFail(e)
  \cup IF e.kind = "deterministic"
       THEN Mk("the filled cells are the captured ones",
               /\ e.res = 0
               /\ \A i \in 1 .. e.ny : \A j \in 1 .. e.n : (e.rows[i][j] > 0) <=> (((i - 1) * e.n + j) \in RangeM(e.filled))
               /\ \A k \in RangeM(e.filled) : k >= 1 /\ k <= e.n * e.ny)
       ELSE Mk("one value for every node", e.shape)
       \cup IF ~e.shape THEN {} ELSE
            Mk("the nodes are drawn where they are", Consecutive(e.x, e.n) /\ Consecutive(e.y, e.ny) /\ e.res <= 100)
       \cup Mk(IF e.sd = 0 THEN "the values are those of the field" ELSE "the values are those of the smoothed field", SurfaceOk(e))
       \cup Mk("the lines are those of the surface", e.lines)
ModelFail(e) ==
       Mk("a map is drawn (" \o e.err \o ")", e.err = "")
  \cup Mk("the model is as it was", e.same)
  \cup IF e.err # "" THEN {} ELSE
       Mk("one value for every location", e.shape)
  \cup IF ~e.shape THEN {} ELSE
       Mk("the raster lies where it was asked for", Consecutive(e.x, e.n) /\ Consecutive(e.y, e.ny) /\ e.res <= 100)
  \cup Mk("blank exactly where it is dry", \A i \in 1 .. e.ny : \A j \in 1 .. e.n : (e.z[i][j] = 2000000000) = (e.want[i][j] = 2000000000))
  \cup Mk("the values are those of the model (" \o e.kind \o ")", \A i \in 1 .. e.ny : \A j \in 1 .. e.n :
           (e.z[i][j] # 2000000000 /\ e.want[i][j] # 2000000000) => AbsM(e.z[i][j] - e.want[i][j]) <= 100)
PFail(t, s, e) ==
    CASE e.op = "map" -> MapFail(e)
      [] e.op = "model" -> ModelFail(e)
      [] e.op = "refuse" -> Mk("a field without realizations is refused (" \o e.what \o ")", e.err \notin {"", "Hang"})
                            \cup Mk("a refusal changes nothing", e.same)
=============================================================================
