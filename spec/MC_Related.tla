----------------------------- MODULE MC_Related -----------------------------
(***************************************************************************)
(* Small capture zones by an integer law: particles start next to the      *)
(* target, are driven by a uniform flow and by wells, and mark the nodes   *)
(* within the umbra; nodes are every Spacing-th point counted from the     *)
(* target.  The configuration is moved about, its wells reordered, the     *)
(* umbra, duration and number of particles increased; the zone follows.    *)
(* Variants: "anchor" = nodes counted from the origin of the world;        *)
(* "first" = the first well of the list drives twice; "box" = half-open    *)
(* box for the umbra; "last" = only where a particle ends is marked.       *)
(***************************************************************************)
EXTENDS Related
CONSTANTS Spacing, Far, MaxT, MaxU, MaxSteps, Variant
VARIABLES conf, zone, last, n
vars == <<conf, zone, last, n>>

Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Sq(a) == a[1] * a[1] + a[2] * a[2]

\* what the wells do to a particle at p: away from those that are near
RECURSIVE Drive(_, _, _)
Drive(c, p, i) ==
    IF i > Len(c.wells) THEN c.flow
    ELSE LET d == Sub(p, c.wells[i])
             push == IF Sq(d) <= 2 THEN d ELSE <<0, 0>>
         IN Add(Drive(c, p, i + 1), IF Variant = "first" /\ i = 1 THEN Add(push, push) ELSE push)
RECURSIVE Path(_, _, _)
Path(c, p, t) == IF t = 0 THEN {p} ELSE (IF Variant = "last" THEN {} ELSE {p}) \cup Path(c, Add(p, Drive(c, p, 1)), t - 1)
Starts(c) == {Add(c.target, Turn(k, <<1, 0>>)) : k \in IF c.np = 4 THEN 0 .. 3 ELSE {0}}
Visited(c) == UNION {Path(c, s, c.t) : s \in Starts(c)}
Covers(c, p, q) == IF Variant = "box" THEN q[1] - p[1] \in -c.u .. c.u - 1 /\ q[2] - p[2] \in -c.u .. c.u - 1
                   ELSE Sq(Sub(p, q)) < c.u * c.u
Anchor(c) == IF Variant = "anchor" THEN <<0, 0>> ELSE c.target
Zone(c) ==
    LET near == {<<a, b>> \in (-Far .. Far) \X (-Far .. Far) :
                    /\ (c.target[1] + a - Anchor(c)[1]) % Spacing = 0
                    /\ (c.target[2] + b - Anchor(c)[2]) % Spacing = 0
                    /\ \E p \in Visited(c) : Covers(c, p, Add(c.target, <<a, b>>))}
    IN near

MoveConf(g, c) == [c EXCEPT !.flow = Move(g, @), !.wells = [i \in 1 .. Len(@) |-> Add(c.target, Move(g, Sub(@[i], c.target)))]]
Shift(v, c) == [c EXCEPT !.target = Add(@, v), !.wells = [i \in 1 .. Len(@) |-> Add(@[i], v)]]
Swap(c) == [c EXCEPT !.wells = [i \in 1 .. Len(@) |-> @[Len(@) + 1 - i]]]

Init == /\ conf \in [target : {<<0, 0>>}, wells : {<<<<0, 0>>, w>> : w \in {<<2, 0>>, <<1, 2>>}}, flow : {<<0, 0>>, <<1, 0>>, <<1, -1>>},
                     np : {1, 4}, t : 1 .. 2, u : 1 .. 2]
        /\ zone = Zone(conf) /\ n = 0 /\ last = [rel |-> "same", g |-> Same, old |-> zone]
To(c, rel, g) == n < MaxSteps /\ n' = n + 1 /\ conf' = c /\ zone' = Zone(c) /\ last' = [rel |-> rel, g |-> g, old |-> zone]
Next == \/ \E g \in {h \in Motions : KeepsStarts(h, conf.np)} : To(MoveConf(g, conf), "same", g)
        \/ \E v \in {<<1, 0>>, <<0, -3>>} : To(Shift(v, conf), "same", Same)
        \/ To(Swap(conf), "same", Same)
        \/ conf.u < MaxU /\ To([conf EXCEPT !.u = @ + 1], "more", Same)
        \/ conf.t < MaxT /\ To([conf EXCEPT !.t = @ + 1], "more", Same)
        \/ conf.np = 1 /\ To([conf EXCEPT !.np = 4], "more", Same)
Spec == Init /\ [][Next]_vars

Follows == Lost(last.rel, last.g, last.old, zone) = {} /\ Added(last.rel, last.g, last.old, zone) = {}
\* motions can be undone
Undone == \A p \in zone : Back("same", last.g, Move(last.g, p)) = p
=============================================================================
