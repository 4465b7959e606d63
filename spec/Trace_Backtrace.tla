-------------------------- MODULE Trace_Backtrace --------------------------
(***************************************************************************)
(* Validates recorded particle traces.                                     *)
(* A trace t carries the law L of its flow (in the normalized frame), tolq *)
(* (tolerance in hundredths of 1/S), gain (how much the flow spreads an    *)
(* error), clk (x is a clock), rho (see MayAccept; 0: not applicable).     *)
(* Events:                                                                 *)
(*   v     one returned vertex: x, y; c = share of the requested duration  *)
(*         that it was reached after, in 10^-9 (if clk); r = length of the *)
(*         step to it / maxstep in 10^-6; g = length of the time step / H  *)
(*         in 1/S; first = the vertex is identical to the starting point;  *)
(*         fin = it is finite                                              *)
(*   end   the call ended: err = exception, "" if none                     *)
(*   fault the evaluation k fails: ids = returned path as vertices of the  *)
(*         undisturbed path, warn = warnings in the run log                *)
(*   int   the evaluation k is interrupted by `kind`                       *)
(***************************************************************************)
EXTENDS Backtrace, TraceKit

BInit(t) == [n |-> 0, c |-> 0, p |-> <<0, 0>>, vis |-> Visits(t.el, t.n)]

BNext(t, s, e) ==
    IF e.op = "v" THEN [s EXCEPT !.n = @ + 1, !.c = e.c, !.p = <<e.x, e.y>>] ELSE s

Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}

Bound(t, n) == 4 + t.gain * ((t.tolq * n) \div 100 + 1)

BFail(t, s, e) ==
    CASE e.op = "v" ->
            Mk({"C04"}, "the path starts at the starting point", s.n = 0 => e.first)
       \cup Mk({"C04", "C05"}, "every vertex is finite", e.fin)
       \cup IF ~e.fin THEN {} ELSE
            Mk({"C04"}, "every step is shorter than the maximum step", s.n > 0 => e.r <= 1000000)
       \cup Mk({"C04"}, "time advances in the direction asked for", (t.clk /\ s.n > 0) => e.c >= s.c)
       \cup Mk({"C04"}, "no vertex lies beyond the requested duration", t.clk => e.c <= 1000000000 + t.cres)
       \cup Mk({"C05"}, "every vertex is on the exact trajectory", OnPath(t.L, <<e.x, e.y>>, Bound(t, s.n)))
       \cup Mk({"C05"}, "no step is accepted whose error estimate exceeds the tolerance",
               (t.rho > 0 /\ s.n > 0) => MayAccept(e.g, t.rho))
      [] e.op = "end" ->
            Mk({"C04", "C05"} \cup (IF e.err = "Hang" THEN {"C06"} ELSE {}), "tracing a regular flow ended with " \o e.err, e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            Mk({"C04", "C05"}, "the path has its starting point", s.n >= 1)
       \cup Mk({"C04"}, "the path ends at exactly the requested duration",
               t.clk => e.c >= 1000000000 - t.cres /\ e.c <= 1000000000 + t.cres)
       \cup Mk({"C04", "C05"}, "the last vertex is the position after the requested duration",
               s.n >= 1 => AtEnd(t.L, s.p, Bound(t, s.n)))
      [] e.op = "fault" ->
            Mk({"C06"}, "tracing with a failing velocity ended with " \o e.err, e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            Mk({"C06"}, "the path is exactly the part completed before the failure",
               IsPrefix(e.ids, CompletedAtLeast(s.vis, t.n, e.k), CompletedAtMost(s.vis, t.n, e.k)))
       \cup Mk({"C06"}, "the event is reported as a warning in the run log", e.warn >= 1)
      [] e.op = "int" ->
            Mk({"C07"}, "the interrupt reaches the caller", e.err = e.kind)
=============================================================================
