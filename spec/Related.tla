------------------------------ MODULE Related ------------------------------
(***************************************************************************)
(* How the capture zones of related configurations are related.            *)
(*                                                                         *)
(* A zone is a set of nodes <<i, j>>, counted from the target well in      *)
(* spacings.  Motions of the plane that take the lattice to itself are     *)
(* [k, m]: mirrored in the first axis if m = 1, then k quarter turns.      *)
(***************************************************************************)
EXTENDS Lattice, TLC

Motions == [k : 0 .. 3, m : 0 .. 1]
Same    == [k |-> 0, m |-> 0]
Quarter(p) == <<-p[2], p[1]>>
RECURSIVE Turn(_, _)
Turn(k, p) == IF k = 0 THEN p ELSE Turn(k - 1, Quarter(p))
Move(g, p) == Turn(g.k, IF g.m = 1 THEN <<p[1], -p[2]>> ELSE p)
Moved(g, S) == {Move(g, p) : p \in S}

\* the motions after which particles start where particles started
KeepsStarts(g, np) == \/ np % 4 = 0
                      \/ np % 2 = 0 /\ g.k \in {0, 2}
                      \/ g.k = 0

\* relations between zones
\*   "same":  the same zone          "more":  nothing is lost
\*   "finer": the spacing is halved, every second node is one of the old ones
Wanted(rel, g, z) == IF rel = "finer" THEN {<<2 * p[1], 2 * p[2]>> : p \in z} ELSE Moved(g, z)
Kept(rel, S) == IF rel = "finer" THEN {p \in S : p[1] % 2 = 0 /\ p[2] % 2 = 0} ELSE S
Lost(rel, g, z, new)  == Wanted(rel, g, z) \ new
Added(rel, g, z, new) == IF rel = "more" THEN {} ELSE Kept(rel, new) \ Wanted(rel, g, z)
\* back to where it was in the first run
Back(rel, g, p) == IF rel = "finer" THEN <<p[1] \div 2, p[2] \div 2>>
                   ELSE CHOOSE q \in {Move(h, p) : h \in Motions} : Move(g, q) = p

(* Many realizations: a node that all of them capture, one that any does.   *)
(* If nothing is uncertain both are the zone; if only the porosity is, the   *)
(* zone of the largest is captured by all of them, and what any captures is  *)
(* in the zone of the smallest.                                             *)
AlwaysLost(z, all) == z \ all
EverAdded(z, some) == some \ z

\* distance of node p (ticks: times d) from a track, against r
InTrack(path, p, d, r) ==
    \E i \in 1 .. Len(path) - 1 :
       /\ d * p[1] > Min2(path[i][1], path[i+1][1]) - r /\ d * p[1] < Max2(path[i][1], path[i+1][1]) + r
       /\ d * p[2] > Min2(path[i][2], path[i+1][2]) - r /\ d * p[2] < Max2(path[i][2], path[i+1][2]) + r
       /\ SegSide(path[i][1], path[i][2], path[i+1][1], path[i+1][2], d * p[1], d * p[2], r, FALSE) = "in"
InZone(paths, p, d, r) == r > 0 /\ \E i \in 1 .. Len(paths) : InTrack(paths[i], p, d, r)
\* too close to the edge of the zone to tell
Edge(paths, p, d, u, slack) == InZone(paths, p, d, u + slack) /\ ~InZone(paths, p, d, u - slack)
=============================================================================
