----------------------------- MODULE Gen_Report -----------------------------
(* Every field of MC_Report, written out.                                    *)
EXTENDS MC_Report, Json, IOUtils, CSV
Emit == CSVWrite("%1$s", <<ToJson([v |-> V, t |-> T])>>, IOEnv.VP_OUT)
=============================================================================
