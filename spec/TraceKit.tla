------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation with total, named verdicts.                            *)
(*                                                                         *)
(* A trace file (JSON, written by a driver that ran the real code) is a    *)
(* sequence of traces; a trace is a record with an identifier `id`, the    *)
(* constants of that execution, and the sequence `ev` of its events.  The  *)
(* specification of the subsystem supplies three operators:                *)
(*                                                                         *)
(*   TInit(t)       the specification's initial state for trace t          *)
(*   TNext(t, s, e) the specification's state after event e from state s   *)
(*   TFail(t, s, e) the set of <<property, clause>> pairs that the         *)
(*                  observation e violates when taken in state s           *)
(*                                                                         *)
(* The state s is the specification's own: it is never overwritten by what *)
(* was observed (except where the specification leaves a choice), so that  *)
(* a deviation shows up in every later event as well.  Every trace ends    *)
(* with exactly one verdict line, `ok` or `bad` with the failing clauses.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS TInit(_), TNext(_, _, _), TFail(_, _, _)

Traces == JsonDeserialize(IOEnv.VP_TRACES)
Focus  == IOEnv.VP_FOCUS

VARIABLES tr, l, st, verdict
tvars == <<tr, l, st, verdict>>

TraceInit ==
    /\ tr \in 1 .. Len(Traces)
    /\ l = 1
    /\ st = TInit(Traces[tr])
    /\ verdict = "run"

Report(v, clauses) ==
    CSVWrite("%1$s", <<ToJson([id |-> Traces[tr].id, verdict |-> v, at |-> l,
                               clauses |-> clauses])>>, IOEnv.VP_OUT)

Step ==
    /\ verdict = "run"
    /\ l <= Len(Traces[tr].ev)
    /\ LET t   == Traces[tr]
           e   == t.ev[l]
           bad == {f \in TFail(t, st, e) : f[1] = Focus}
       IN IF bad # {}
          THEN /\ verdict' = "bad"
               /\ Report("bad", bad)
               /\ UNCHANGED <<tr, l, st>>
          ELSE /\ st' = TNext(t, st, e)
               /\ l' = l + 1
               /\ UNCHANGED <<tr, verdict>>

Finish ==
    /\ verdict = "run"
    /\ l = Len(Traces[tr].ev) + 1
    /\ verdict' = "ok"
    /\ Report("ok", {})
    /\ UNCHANGED <<tr, l, st>>

TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
