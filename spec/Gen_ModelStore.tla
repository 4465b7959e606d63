-------------------------- MODULE Gen_ModelStore --------------------------
EXTENDS MC_ModelStore, Json, IOUtils, CSV
VARIABLE ops
gvars == <<st, n, last, ops>>
GInit == Init /\ ops = <<>>
GNext == /\ n < MaxOps
         /\ \E o \in Ops : Possible(st, o) /\ st' = Apply(st, o) /\ ops' = Append(ops, o)
         /\ n' = n + 1 /\ UNCHANGED last
GSpec == GInit /\ [][GNext]_gvars
Emit == n = MaxOps => CSVWrite("%1$s", <<ToJson(ops)>>, IOEnv.VP_OUT)
=============================================================================
