-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* A run of the entry point (oneka.oneka, create_stochastic_capturezone,   *)
(* create_deterministic_capturezone): the configuration is validated, the  *)
(* observations are filtered, realizations are drawn, traced particle by   *)
(* particle and registered, the result is reported and archived.           *)
(*                                                                         *)
(* State (a record):                                                       *)
(*   phase    idle, checked, filtered, tracing, complete, rejected,        *)
(*            interrupted, done                                            *)
(*   cfg      the configuration: n realizations asked for, np particles,   *)
(*            and whatever describes the distributions                     *)
(*   mo       the model of the realization in progress                     *)
(*   traced   results of the particles traced so far ("full" or "cut")     *)
(*   field    the registered realizations: <<model, results>>              *)
(*   warns    warnings in the run log during this run                      *)
(*   entries  realizations described in the run log during this run        *)
(*   arch     archives: <<configuration, field>>, of all runs so far       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoModel == "none"
Init0 == [phase |-> "idle", cfg |-> [n |-> 0], mo |-> NoModel, traced |-> <<>>, field |-> <<>>,
          warns |-> 0, entries |-> <<>>, arch |-> <<>>]

Stochastic(c) == c.n > 1
NReal(c) == IF Stochastic(c) THEN c.n ELSE 1

Ended(s) == s.phase \in {"idle", "rejected", "interrupted", "done"}

Begin(s, c) == [Init0 EXCEPT !.phase = "begun", !.cfg = c, !.arch = s.arch]
Reject(s)   == [s EXCEPT !.phase = "rejected"]
Filter(s)   == [s EXCEPT !.phase = "filtered"]

CanDraw(s)  == /\ s.phase \in {"filtered", "registered"}
               /\ Len(s.field) < NReal(s.cfg)
Draw(s, m)  == [s EXCEPT !.phase = "tracing", !.mo = m, !.traced = <<>>, !.entries = Append(@, m)]

CanTrace(s) == s.phase = "tracing" /\ Len(s.traced) < s.cfg.np
Trace1(s, how) == [s EXCEPT !.traced = Append(@, how), !.warns = @ + (IF how = "cut" THEN 1 ELSE 0)]

CanRegister(s) == s.phase = "tracing" /\ Len(s.traced) = s.cfg.np
Register1(s) == [s EXCEPT !.phase = "registered", !.field = Append(@, <<s.mo, s.traced>>),
                          !.mo = NoModel, !.traced = <<>>]

\* only while tracing: that is where the time goes
Interrupt(s) == [s EXCEPT !.phase = "interrupted", !.mo = NoModel, !.traced = <<>>]

CanArchive(s) == s.phase = "registered" /\ Len(s.field) = NReal(s.cfg)
Archive(s)  == [s EXCEPT !.phase = "done", !.arch = Append(@, <<s.cfg, s.field>>)]

----------------------------------------------------------------------------
(* A whole realization, for executions observed from outside: cuts of the  *)
(* np particles ended early.                                               *)
RECURSIVE TraceMany(_, _, _)
TraceMany(s, full, cut) ==
    IF full > 0 THEN TraceMany(Trace1(s, "full"), full - 1, cut)
    ELSE IF cut > 0 THEN TraceMany(Trace1(s, "cut"), full, cut - 1) ELSE s

Realize(s, m, cuts) == Register1(TraceMany(Draw(s, m), s.cfg.np - cuts, cuts))
=============================================================================
