---------------------------- MODULE Gen_Summary ----------------------------
(* Every table of MC_Summary with at least one value in each column.        *)
EXTENDS MC_Summary, Json, IOUtils, CSV
Emit == (Col(rows, 1) # <<>> /\ Col(rows, 2) # <<>>) => CSVWrite("%1$s", <<ToJson([rows |-> rows])>>, IOEnv.VP_OUT)
=============================================================================
