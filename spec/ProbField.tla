----------------------------- MODULE ProbField -----------------------------
(***************************************************************************)
(* The auto-expanding probability field (oneka/probabilityfield.py).       *)
(*                                                                         *)
(* The field is a window into an infinite lattice of nodes.  Nodes are     *)
(* identified by their world coordinates <<x, y>> in ticks, never by array *)
(* indices: "the contents are maintained" then simply means that vis and   *)
(* acc do not change when the window grows.                                *)
(*                                                                         *)
(* State (a record, so that the trace specification can step it):          *)
(*   empty                 no window yet                                   *)
(*   dx, dy                spacing                                         *)
(*   x0, x1, y0, y1        coordinates of the first and last column / row  *)
(*   vis                   nodes marked by the realization in progress     *)
(*   acc                   accumulated weight: function on the nodes with  *)
(*                         non-zero weight                                 *)
(*   tot                   total weight                                    *)
(***************************************************************************)
EXTENDS Lattice

EmptyFn == [n \in {} |-> 0]

NewField(dx, dy) ==
    [empty |-> TRUE, dx |-> dx, dy |-> dy, x0 |-> 0, x1 |-> 0, y0 |-> 0, y1 |-> 0,
     vis |-> {}, acc |-> EmptyFn, tot |-> 0]

NewFieldAt(dx, dy, xo, yo) ==
    [empty |-> FALSE, dx |-> dx, dy |-> dy,
     x0 |-> xo - dx, x1 |-> xo + dx, y0 |-> yo - dy, y1 |-> yo + dy,
     vis |-> {}, acc |-> EmptyFn, tot |-> 0]

----------------------------------------------------------------------------
(* Growth.  The first window has one column to the left of the rectangle   *)
(* and at least one to the right; an existing window grows on each side by *)
(* the least number of columns that makes the rectangle strictly inside.   *)

GrowLo(v0, d, lo) == IF lo <= v0 THEN v0 - d * (((v0 - lo) \div d) + 1) ELSE v0
GrowHi(v1, d, hi) == IF hi >= v1 THEN v1 + d * (((hi - v1) \div d) + 1) ELSE v1

FirstHi(lo, d, hi) == LET n == CeilDiv(hi - lo + d, d) + 2
                      IN  (lo - d) + (Max2(3, n) - 1) * d

Reversed(xa, xb, ya, yb) == xa > xb \/ ya > yb

Expand(f, xa, xb, ya, yb) ==
    IF Reversed(xa, xb, ya, yb) THEN f
    ELSE IF f.empty
    THEN [f EXCEPT !.empty = FALSE,
                   !.x0 = xa - f.dx, !.x1 = FirstHi(xa, f.dx, xb),
                   !.y0 = ya - f.dy, !.y1 = FirstHi(ya, f.dy, yb)]
    ELSE [f EXCEPT !.x0 = GrowLo(f.x0, f.dx, xa), !.x1 = GrowHi(f.x1, f.dx, xb),
                   !.y0 = GrowLo(f.y0, f.dy, ya), !.y1 = GrowHi(f.y1, f.dy, yb)]

Covers(f, xa, xb, ya, yb) == f.x0 < xa /\ xb < f.x1 /\ f.y0 < ya /\ yb < f.y1

----------------------------------------------------------------------------
(* Marking.  A track is a sequence of points <<x, y>>.                      *)

SegNodes(f, a, b, u, exact, side) ==
    LET xs == Grid1c(f.x0, f.dx, Max2(f.x0, Min2(a[1], b[1]) - u), Min2(f.x1, Max2(a[1], b[1]) + u))
        ys == Grid1c(f.y0, f.dy, Max2(f.y0, Min2(a[2], b[2]) - u), Min2(f.y1, Max2(a[2], b[2]) + u))
    IN  {n \in xs \X ys : SegSide(a[1], a[2], b[1], b[2], n[1], n[2], u, exact) = side}

TrackNodes(f, p, u, exact, side) ==
    UNION {SegNodes(f, p[i], p[i+1], u, exact, side) : i \in 1 .. (Len(p) - 1)}

\* one segment, clipped to the window as it is (no growth)
Insert(f, a, b, u) == [f EXCEPT !.vis = @ \cup SegNodes(f, a, b, u, TRUE, "in")]

TrackBox(p) ==
    LET xs == {p[i][1] : i \in 1 .. Len(p)}
        ys == {p[i][2] : i \in 1 .. Len(p)}
    IN  <<MinOf(xs), MaxOf(xs), MinOf(ys), MaxOf(ys)>>

GrowForTrack(f, p, u) ==
    LET b == TrackBox(p) IN Expand(f, b[1] - u, b[2] + u, b[3] - u, b[4] + u)

Rasterize(f, p, u) ==
    LET g == GrowForTrack(f, p, u)
    IN  [g EXCEPT !.vis = @ \cup TrackNodes(g, p, u, TRUE, "in")]

----------------------------------------------------------------------------
(* Accumulation.                                                           *)

AccAt(f, n) == IF n \in DOMAIN f.acc THEN f.acc[n] ELSE 0

Register(f, w) ==
    [f EXCEPT !.acc = [n \in {m \in (DOMAIN f.acc) \cup f.vis :
                                AccAt(f, m) + (IF m \in f.vis THEN w ELSE 0) # 0}
                         |-> AccAt(f, n) + (IF n \in f.vis THEN w ELSE 0)],
              !.tot = @ + w,
              !.vis = {}]

Reset(f) == [f EXCEPT !.vis = {}]

----------------------------------------------------------------------------
(* State predicates.                                                       *)

InWindow(f, n) == f.x0 <= n[1] /\ n[1] <= f.x1 /\ f.y0 <= n[2] /\ n[2] <= f.y1
OnLattice(f, n) == (n[1] - f.x0) % f.dx = 0 /\ (n[2] - f.y0) % f.dy = 0

WindowOK(f) ==
    ~f.empty => /\ (f.x1 - f.x0) % f.dx = 0 /\ (f.y1 - f.y0) % f.dy = 0
                /\ f.x1 - f.x0 >= 2 * f.dx  /\ f.y1 - f.y0 >= 2 * f.dy

ContentOK(f) ==
    /\ \A n \in f.vis : InWindow(f, n) /\ OnLattice(f, n)
    /\ \A n \in DOMAIN f.acc : InWindow(f, n) /\ OnLattice(f, n)

ProbabilityOK(f) == \A n \in DOMAIN f.acc : 0 < f.acc[n] /\ f.acc[n] <= f.tot
=============================================================================
