--------------------------- MODULE Gen_ProbField ---------------------------
(* Every history of MaxOps operations of MC_ProbField, written out for replay *)
(* into the real ProbabilityField.                                            *)
EXTENDS MC_ProbField, Json, IOUtils, CSV
VARIABLE ops
gvars == <<f, cur, hist, n, ops>>

GInit == Init /\ ops = << IF f.empty THEN [op |-> "new", a |-> <<2, 3>>, u |-> 0]
                                     ELSE [op |-> "newat", a |-> <<2, 3, 0, 1>>, u |-> 0] >>
Log(op, a, u) == ops' = Append(ops, [op |-> op, a |-> a, u |-> u])
GNext == \/ \E p \in Tracks, u \in Umbras : Mark(p, u) /\ Log("rasterize", p, u)
         \/ \E b \in Boxes : Cover(b) /\ Log("expand", b, 0)
         \/ \E w \in Weights : Commit(w) /\ Log("register", <<>>, w)
         \/ Discard /\ Log("reset", <<>>, 0)
GSpec == GInit /\ [][GNext]_gvars
\* one line per complete history
Emit == n = MaxOps => CSVWrite("%1$s", <<ToJson(ops)>>, IOEnv.VP_OUT)
=============================================================================
