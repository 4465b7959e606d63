--------------------------- MODULE MC_ProbField ---------------------------
(***************************************************************************)
(* Exhaustive check of the field's design over all short histories, with   *)
(* ghost variables that remember what was done.  The central invariant     *)
(* Exact says that the stored probabilities are a function of WHAT was     *)
(* registered, not of when the grid grew.                                  *)
(*                                                                         *)
(* UmbraGrow = FALSE is the original algorithm, which grew the grid to the *)
(* vertices of a track only: Exact is then violated (the defect repaired   *)
(* in /repo; MC_ProbField_legacy.cfg demonstrates it).                     *)
(***************************************************************************)
EXTENDS ProbField, TLC

CONSTANTS MaxOps, UmbraGrow

Tracks == { <<<<0,0>>, <<3,0>>>>,
            <<<<1,-4>>, <<1,2>>>>,
            <<<<-5,3>>, <<-5,3>>>>,
            <<<<2,2>>, <<6,5>>, <<-1,6>>>> }
Umbras  == {2, 5}
Boxes   == { <<-4,1,0,7>>, <<3,3,-6,-6>>, <<2,1,0,0>> }
Weights == {4, 8}

VARIABLES f, cur, hist, n
vars == <<f, cur, hist, n>>

Init ==
    /\ f \in {NewField(2, 3), NewFieldAt(2, 3, 0, 1)}
    /\ cur = {} /\ hist = <<>> /\ n = 0

Tick == n < MaxOps /\ n' = n + 1

Mark(p, u) ==
    /\ Tick
    /\ f' = IF UmbraGrow THEN Rasterize(f, p, u)
            ELSE LET b == TrackBox(p)
                     g == Expand(f, b[1], b[2], b[3], b[4])
                 IN  [g EXCEPT !.vis = @ \cup TrackNodes(g, p, u, TRUE, "in")]
    /\ cur' = cur \cup {<<p, u>>}
    /\ UNCHANGED hist

Cover(b) ==
    /\ Tick
    /\ f' = Expand(f, b[1], b[2], b[3], b[4])
    /\ UNCHANGED <<cur, hist>>

Commit(w) ==
    /\ Tick /\ ~f.empty
    /\ f' = Register(f, w)
    /\ hist' = Append(hist, <<w, cur>>)
    /\ cur' = {}

Discard ==
    /\ Tick /\ ~f.empty
    /\ f' = Reset(f)
    /\ cur' = {}
    /\ UNCHANGED hist

Next == \/ \E p \in Tracks, u \in Umbras : Mark(p, u)
        \/ \E b \in Boxes : Cover(b)
        \/ \E w \in Weights : Commit(w)
        \/ Discard
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the infinite lattice, cut to a region that contains every track and umbra
Region == IF f.empty THEN {}
          ELSE Grid1c(f.x0, f.dx, -11, 12) \X Grid1c(f.y0, f.dy, -11, 13)

Near(node, tracks) ==
    \E t \in tracks : \E i \in 1 .. (Len(t[1]) - 1) :
        SegSide(t[1][i][1], t[1][i][2], t[1][i+1][1], t[1][i+1][2], node[1], node[2], t[2], TRUE) = "in"

RECURSIVE SumW(_, _)
SumW(h, node) == IF h = <<>> THEN 0
                 ELSE (IF Near(node, h[1][2]) THEN h[1][1] ELSE 0) + SumW(Tail(h), node)
RECURSIVE SumT(_)
SumT(h) == IF h = <<>> THEN 0 ELSE h[1][1] + SumT(Tail(h))

Exact ==
    /\ \A node \in Region : node \in f.vis <=> Near(node, cur)
    /\ \A node \in Region : AccAt(f, node) = SumW(hist, node)
    /\ f.tot = SumT(hist)

Geometry == WindowOK(f) /\ ContentOK(f)
Probability == ProbabilityOK(f)

\* action properties
Monotone == [][ (~f.empty) => /\ f'.x0 <= f.x0 /\ f.x1 <= f'.x1
                              /\ f'.y0 <= f.y0 /\ f.y1 <= f'.y1
                              /\ (f'.x0 - f.x0) % f.dx = 0 /\ (f'.y0 - f.y0) % f.dy = 0 ]_vars
AccOnlyGrows == [][ \A node \in DOMAIN f.acc : AccAt(f', node) >= f.acc[node] ]_vars
OnlyCommitAccumulates == [][ hist' = hist => f'.acc = f.acc /\ f'.tot = f.tot ]_vars
=============================================================================
