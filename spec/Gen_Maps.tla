------------------------------ MODULE Gen_Maps ------------------------------
(* Every raster of MC_Maps, written out.                                     *)
EXTENDS MC_Maps, Json, IOUtils, CSV
Emit == CSVWrite("%1$s", <<ToJson([m |-> m])>>, IOEnv.VP_OUT)
=============================================================================
