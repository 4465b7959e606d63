----------------------------- MODULE Trace_Frame -----------------------------
(***************************************************************************)
(* Validates histories of calls (C28).  State: what every object held so   *)
(* far contains (numbers standing for contents).  Events: op, t (names of  *)
(* the objects it is about), ok, fresh (names of objects handed out or     *)
(* brought along by the user), c (contents afterwards).                    *)
(***************************************************************************)
EXTENDS Frame, TraceKit
FInit(t) == [c |-> [x \in {} |-> 0]]
FNext(t, s, e) == [c |-> e.c]
FFail(t, s, e) ==
    UNION {IF x \in DOMAIN e.c /\ e.c[x] = s.c[x] THEN {}
           ELSE {<<"C28", e.op \o " leaves " \o e.kind[x] \o " as it is">>} :
           x \in (DOMAIN s.c \ May(e)) \ {e.fresh[i] : i \in 1 .. Len(e.fresh)}}
=============================================================================
