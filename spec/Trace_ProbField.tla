-------------------------- MODULE Trace_ProbField --------------------------
(***************************************************************************)
(* Validates recorded histories of a real ProbabilityField (one event per  *)
(* public call, with the complete projected state after the call).         *)
(*                                                                         *)
(* Event: op, its arguments (in ticks), and p, the observation afterwards: *)
(*   err    name of the exception raised, "" if none                       *)
(*   empty  the field has no grid yet                                      *)
(*   x0,x1,y0,y1  limits in ticks;  res  largest distance of a limit from  *)
(*          an integer tick, in millionths of a tick                       *)
(*   nc,nr  reported numbers of columns and rows;  shp = <<rows, cols>> of *)
(*          the probability array and of the mark array                    *)
(*   vis    <<col, row>> indices (0-based) of the marked nodes             *)
(*   acc    <<col, row, weight>> of the nodes with a non-zero weight       *)
(*   tot    total weight;  wres  TRUE if all weights are representable     *)
(***************************************************************************)
EXTENDS ProbField, TraceKit

FInit(t) == NewField(1, 1)

Box(e) == <<e.a[1], e.a[2], e.a[3], e.a[4]>>

\* nodes as observed, in world coordinates
ObsVis(f, p) == {<<p.x0 + p.vis[i][1] * f.dx, p.y0 + p.vis[i][2] * f.dy>> : i \in 1 .. Len(p.vis)}
ObsAcc(f, p) == {<<p.x0 + p.acc[i][1] * f.dx, p.y0 + p.acc[i][2] * f.dy, p.acc[i][3]>> : i \in 1 .. Len(p.acc)}
SpecAcc(f)   == {<<n[1], n[2], f.acc[n]>> : n \in DOMAIN f.acc}

Grown(f, e) == GrowForTrack(f, e.a, e.u)

MustMark(t, g, e) == TrackNodes(g, e.a, e.u, t.exact, "in")
MayMark(t, g, e)  == TrackNodes(g, e.a, e.u, t.exact, "tie")

FNext(t, f, e) ==
    CASE e.op = "new"    -> NewField(e.a[1], e.a[2])
      [] e.op = "newat"  -> NewFieldAt(e.a[1], e.a[2], e.a[3], e.a[4])
      [] e.op = "badnew" -> f
      [] e.op = "expand" -> Expand(f, e.a[1], e.a[2], e.a[3], e.a[4])
      [] e.op = "rasterize" ->
            LET g == Grown(f, e)
            IN  [g EXCEPT !.vis = @ \cup MustMark(t, g, e) \cup (MayMark(t, g, e) \cap ObsVis(g, e.p))]
      [] e.op = "insert" ->
            [f EXCEPT !.vis = @ \cup MustMark(t, f, e) \cup (MayMark(t, f, e) \cap ObsVis(f, e.p))]
      [] e.op = "register" -> Register(f, e.u)
      [] e.op = "reset"  -> Reset(f)

Refused(f, e) ==
    CASE e.op = "badnew" -> TRUE
      [] e.op = "expand" -> Reversed(e.a[1], e.a[2], e.a[3], e.a[4])
      [] OTHER -> FALSE

OpProp(e) ==
    CASE e.op \in {"new", "newat", "badnew", "expand"} -> {"C01"}
      [] e.op \in {"rasterize", "insert"} -> {"C02"}
      [] OTHER -> {"C03"}

Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}

FFail(t, f, e) ==
    LET g == FNext(t, f, e)
        p == e.p
        P == OpProp(e)
    IN
    Mk(P, "an argument that must be refused was accepted", Refused(f, e) => p.err # "")
    \cup Mk(P, "a legal operation raised " \o p.err, ~Refused(f, e) => p.err = "")
    \cup
    IF p.err # "" /\ ~Refused(f, e) THEN {}          \* nothing further to compare
    ELSE IF e.op = "badnew" THEN {}
    ELSE
    Mk({"C01"}, "the grid exists exactly if something was covered", p.empty = g.empty)
    \cup
    IF p.empty \/ g.empty THEN {}
    ELSE
    \* C01: geometry
    Mk({"C01"}, "limits are on the lattice of the field", p.res <= 1000)
    \cup Mk({"C01"}, "rows, columns and limits agree",
            p.x1 = p.x0 + (p.nc - 1) * g.dx /\ p.y1 = p.y0 + (p.nr - 1) * g.dy)
    \cup Mk({"C01"}, "array shapes agree with rows and columns",
            p.shp = <<p.nr, p.nc, p.nr, p.nc>>)
    \cup Mk({"C01"}, "the covered rectangle is strictly inside the grid",
            (e.op = "expand" /\ ~Refused(f, e)) =>
               (p.x0 < e.a[1] /\ e.a[2] < p.x1 /\ p.y0 < e.a[3] /\ e.a[4] < p.y1))
    \cup Mk({"C01"}, "the grid never shrinks",
            ~f.empty /\ e.op \notin {"new", "newat"} =>
               p.x0 <= f.x0 /\ p.x1 >= f.x1 /\ p.y0 <= f.y0 /\ p.y1 >= f.y1)
    \cup Mk({"C01"}, "the grid has exactly the required extent",
            <<p.x0, p.x1, p.y0, p.y1>> = <<g.x0, g.x1, g.y0, g.y1>>)
    \* marks
    \cup Mk(P, "marks",
            IF e.op \in {"rasterize", "insert"}
            THEN LET must == f.vis \cup MustMark(t, IF e.op = "insert" THEN f ELSE g, e)
                     may  == MayMark(t, IF e.op = "insert" THEN f ELSE g, e)
                     obs  == ObsVis(g, p)
                 IN  must \subseteq obs /\ obs \subseteq (must \cup may)
            ELSE ObsVis(g, p) = g.vis)
    \cup Mk({"C01"}, "marks made before are still there", e.op \in {"rasterize", "expand"} => f.vis \subseteq ObsVis(g, p))
    \* accumulated weights
    \cup Mk(P \cup {"C03"} \cup (IF e.op = "rasterize" THEN {"C01"} ELSE {}),
            "accumulated weight at every node", ObsAcc(g, p) = SpecAcc(g))
    \cup Mk(P \cup {"C03"} \cup (IF e.op = "rasterize" THEN {"C01"} ELSE {}), "total weight", p.tot = g.tot /\ p.wres)
    \* consequences stated by C03, evaluated on the observation itself
    \cup Mk({"C03"}, "value divided by total lies in [0, 1]",
            \A i \in 1 .. Len(p.acc) : 0 <= p.acc[i][3] /\ p.acc[i][3] <= p.tot)
    \* the specification's own invariants hold along the trace
    \cup Mk(P, "specification invariant", WindowOK(g) /\ ContentOK(g) /\ ProbabilityOK(g))
=============================================================================
