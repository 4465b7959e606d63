------------------------------- MODULE Gen_Obs -------------------------------
(* Every initial list of MC_Obs, written out for the real filter_obs.          *)
EXTENDS MC_Obs, Json, IOUtils, CSV
GSpec == Init /\ [][FALSE]_vars
Emit == CSVWrite("%1$s", <<ToJson([obs |-> obs, wells |-> Wells, buffer |-> Buffer])>>, IOEnv.VP_OUT)
=============================================================================
