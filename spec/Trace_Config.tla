---------------------------- MODULE Trace_Config ----------------------------
(***************************************************************************)
(* Validates calls of the entry point with configurations of Config.tla.   *)
(*   call   cfg (kinds), err; evals, tracks, regs = evaluations of the     *)
(*          flow, particles mapped, zones registered; files = new          *)
(*          archives; kept = the earlier archive is as it was;             *)
(*          opts = archived values of the arguments left out               *)
(*   module the same for a data module that comes with the code            *)
(***************************************************************************)
EXTENDS Config, TraceKit
GInit(t) == [n |-> 0]
GNext(t, s, e) == [s EXCEPT !.n = @ + 1]
Mk(clause, cond) == IF cond THEN {} ELSE {<<"C20", clause>>}

Which(c) == LET b == {f \in Fields : c[f] \in Bad(f)} IN IF b = {} THEN "" ELSE CHOOSE f \in b : TRUE
Completed(e) ==
       Mk("a valid configuration runs to completion (" \o e.err \o ")", e.err = "")
  \cup Mk("a completed run leaves one archive", e.err = "" => e.files = 1 /\ e.regs > 0)
  \cup Mk("arguments left out have their documented defaults",
          e.err = "" => \A i \in 1 .. Len(e.opts) : e.opts[i][2] = Default(e.opts[i][1]))
GFail(t, s, e) ==
       Mk("archives of earlier runs stay", e.kept)
  \cup CASE e.op = "module" -> Completed(e)
         [] e.op = "call" ->
              IF Accept(e.cfg) THEN Completed(e)
              ELSE Mk("an invalid configuration raises an error: " \o Which(e.cfg), e.err # "")
              \cup Mk("nothing is computed before an invalid configuration is rejected: " \o Which(e.cfg),
                      e.evals = 0 /\ e.tracks = 0 /\ e.regs = 0)
              \cup Mk("a rejected run leaves no archive", e.files = 0)
=============================================================================
