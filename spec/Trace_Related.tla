---------------------------- MODULE Trace_Related ----------------------------
(***************************************************************************)
(* Validates families of deterministic runs (C29, C30, C31).               *)
(* Events:                                                                 *)
(*   zone   the first run: np particles, spacing d and umbra u in ticks,   *)
(*          paths (ticks, from the target), nodes (spacings, from the      *)
(*          target), coef (10^-6 of their size), ends (cm, from the target)*)
(*   again  a related run: rel, g (motion), f (factor of coefficients),    *)
(*          prop ("C29": neither may differ, "C30": nothing may be lost),  *)
(*          what (in words), cmp = <<nodes, coef, ends>> to be compared    *)
(*   many   n realizations: nodes <<i, j, times captured>>; rel to the zone *)
(***************************************************************************)
EXTENDS Related, TraceKit
Slack == 2
RInit(t) == [z |-> [np |-> 0]]
RNext(t, s, e) == IF e.op = "zone" THEN [z |-> e] ELSE s
SetOf(q) == {q[i] : i \in 1 .. Len(q)}
Mk(p, clause, cond) == IF cond THEN {} ELSE {<<p, clause>>}

\* coefficients of x^2, y^2, xy, x, y, 1 after a quarter turn, after the mirror
TurnC(c)   == <<c[2], c[1], -c[3], -c[5], c[4], c[6]>>
MirrorC(c) == <<c[1], c[2], -c[3], c[4], -c[5], c[6]>>
RECURSIVE TurnsC(_, _)
TurnsC(k, c) == IF k = 0 THEN c ELSE TurnsC(k - 1, TurnC(c))
MoveC(g, c) == TurnsC(g.k, IF g.m = 1 THEN MirrorC(c) ELSE c)
CoefFollow(g, f, c, d) == LET w == MoveC(g, c) IN Len(d) = 6 /\ \A i \in 1 .. 6 : Abs(f * w[i] - d[i]) <= 100

NearEnd(p, q) == Abs(p[1] - q[1]) <= 25 /\ Abs(p[2] - q[2]) <= 25
EndsFollow(e, z) ==
    /\ \A p \in SetOf(z.ends) : \E q \in SetOf(e.ends) : NearEnd(Move(e.g, p), q)
    /\ e.rel # "more" => \A q \in SetOf(e.ends) : \E p \in SetOf(z.ends) : NearEnd(Move(e.g, p), q)

Unsure(z, p) == Edge(z.paths, p, z.d, z.u, Slack)
\* many realizations of which every one is the zone, or holds it, or lies within it
ManyFail(z, e) ==
    LET all  == {<<m[1], m[2]>> : m \in {m \in SetOf(e.nodes) : m[3] = e.n}}
        some == {<<m[1], m[2]>> : m \in SetOf(e.nodes)}
        old  == SetOf(z.nodes)
    IN Mk(e.prop, "the run ends normally (" \o e.err \o ")", e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            Mk(e.prop, "values are whole numbers of realizations", e.whole /\ \A m \in SetOf(e.nodes) : m[3] \in 1 .. e.n)
       \cup Mk(e.prop, "every realization captures what is captured for sure (" \o e.rel \o ")",
               e.rel \in {"same", "at least"} => \A p \in AlwaysLost(old, all) : Unsure(z, p))
       \cup Mk(e.prop, "no realization captures what is never captured (" \o e.rel \o ")",
               e.rel \in {"same", "at most"} => \A p \in EverAdded(old, some) : Unsure(z, p))
RFail(t, s, e) ==
    IF e.op = "many" THEN ManyFail(s.z, e) ELSE
    IF e.op = "zone" THEN Mk("C31", "the first run ends normally (" \o e.err \o ")", e.err = "") \cup Mk("C29", "the first run ends normally (" \o e.err \o ")", e.err = "")
                     \cup Mk("C30", "the first run ends normally (" \o e.err \o ")", e.err = "")
    ELSE LET z == s.z
             new == SetOf(e.nodes)
             old == SetOf(z.nodes)
         IN Mk(e.prop, "the run ends normally (" \o e.what \o ": " \o e.err \o ")", e.err = "")
         \cup IF e.err # "" THEN {} ELSE
              (IF ~e.cmp[1] THEN {} ELSE
                 Mk(e.prop, "no node is lost (" \o e.what \o ")",
                    \A p \in Lost(e.rel, e.g, old, new) : Unsure(z, Back(e.rel, e.g, p)))
            \cup Mk(e.prop, "no node is added (" \o e.what \o ")",
                    \A p \in Added(e.rel, e.g, old, new) : Unsure(z, Back(e.rel, e.g, p))))
         \cup (IF e.cmp[2] THEN Mk(e.prop, "the regional flow follows (" \o e.what \o ")", CoefFollow(e.g, e.f, z.coef, e.coef)) ELSE {})
         \cup (IF e.cmp[3] THEN Mk(e.prop, "the particles end where they ended (" \o e.what \o ")", EndsFollow(e, z)) ELSE {})
=============================================================================
