---------------------------- MODULE CaptureZone ----------------------------
(***************************************************************************)
(* A capture zone (capturezone.compute_capturezone): n particles started   *)
(* on a circle around the target, each traced, everything registered once. *)
(* Nodes and vertices are in ticks; the vertices of real paths are rounded *)
(* to ticks, so nodes within Slack ticks of the umbra boundary may be      *)
(* either way.                                                             *)
(***************************************************************************)
EXTENDS ProbField

Slack == 2

\* f only supplies the lattice and the window here
NearNodes(f, paths, u) ==
    UNION {IF Len(paths[i]) = 0 THEN {}
           ELSE IF Len(paths[i]) = 1 THEN {} ELSE TrackNodes(f, paths[i], u, FALSE, "in") : i \in 1 .. Len(paths)}

MustNodes(f, paths, u) == NearNodes(f, paths, u - Slack)
MayNodes(f, paths, u)  == NearNodes(f, paths, u + Slack)

(* n points (fixed point, radius R) are equally spread on the circle: given *)
(* in angular order, all lie on it and all the gaps are the same.          *)
Chord2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
Near2(p, q, d) == LET dx == Abs(p[1]-q[1]) dy == Abs(p[2]-q[2]) IN dx <= d /\ dy <= d
Dot(a, b)   == a[1]*b[1] + a[2]*b[2]
Cross(a, b) == a[1]*b[2] - a[2]*b[1]

EquallySpread(pts, R) ==
    LET n == Len(pts)
        nx(i) == IF i = n THEN 1 ELSE i + 1
        \* a quantity is known to about R (one unit in each of two factors)
        near(a, b) == Abs(a - b) <= 8 * R
    IN  /\ \A i \in 1 .. n : near(Dot(pts[i], pts[i]), R * R)
        /\ n > 1 => \A i \in 1 .. n : near(Dot(pts[i], pts[nx(i)]), Dot(pts[1], pts[2]))
                                   /\ near(Cross(pts[i], pts[nx(i)]), Cross(pts[1], pts[2]))
        \* and no two coincide
        /\ \A i, j \in 1 .. n : i < j => ~Near2(pts[i], pts[j], 2)

----------------------------------------------------------------------------
(* The accumulated weights after the capture zone was registered.  ties:   *)
(* the nodes of the band that were observed to receive the weight.         *)
Zone(f, must, w, ties) ==
    LET got == must \cup ties IN
    [f EXCEPT !.acc = [n \in {m \in (DOMAIN f.acc) \cup got : AccAt(f, m) + (IF m \in got THEN w ELSE 0) # 0}
                         |-> AccAt(f, n) + (IF n \in got THEN w ELSE 0)],
              !.tot = @ + w,
              !.vis = {}]
=============================================================================
