---------------------------- MODULE Gen_Variates ----------------------------
(* Every argument and every pair of bounds of MC_Variates, written out.        *)
EXTENDS MC_Variates, Json, IOUtils, CSV
GSpec == Init /\ [][FALSE]_vars
Emit == CSVWrite("%1$s", <<ToJson([d |-> d, lb |-> lb, ub |-> ub])>>, IOEnv.VP_OUT)
=============================================================================
