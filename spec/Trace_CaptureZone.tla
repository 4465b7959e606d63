------------------------- MODULE Trace_CaptureZone -------------------------
(***************************************************************************)
(* Validates recorded capture zones of one probability field.  Events:     *)
(*   new    p                                                              *)
(*   prior  p (arbitrary earlier content; adopted)                         *)
(*   zone   n, w, u requested; starts (angular order, radius SR fixed      *)
(*          point); paths (ticks); clk = shares of the duration reached, in *)
(*          10^-9; r = longest step / maxstep in 10^-6; g, rho see          *)
(*          Backtrace!MayAccept; agree = paths equal to the single trace    *)
(*          from their start; cut = paths of one failing particle that are  *)
(*          proper prefixes of the undisturbed ones, full = equal to them, *)
(*         lim = number of particles that fail                           *)
(*   zint   interrupted zone: kind, err, p                                  *)
(* p is the observation of the field (see Trace_ProbField).                *)
(***************************************************************************)
EXTENDS CaptureZone, TraceKit
B == INSTANCE Backtrace

SR == 20000

\* the observed window, as the window of the specification
Win(f, p) == [f EXCEPT !.empty = FALSE, !.x0 = p.x0, !.x1 = p.x1, !.y0 = p.y0, !.y1 = p.y1]
ObsAccFn(f, p) == [m \in {<<p.x0 + p.acc[i][1] * f.dx, p.y0 + p.acc[i][2] * f.dy>> : i \in 1 .. Len(p.acc)}
                    |-> LET i == CHOOSE i \in 1 .. Len(p.acc) : <<p.x0 + p.acc[i][1] * f.dx, p.y0 + p.acc[i][2] * f.dy>> = m
                        IN  p.acc[i][3]]

ZInit(t) == NewField(t.dx, t.dy)

\* an unbounded window: no node near a path may be missing
Unbounded(f, p) ==
    LET pad(d) == 6 * d IN
    [Win(f, p) EXCEPT !.x0 = p.x0 - pad(f.dx), !.x1 = p.x1 + pad(f.dx), !.y0 = p.y0 - pad(f.dy), !.y1 = p.y1 + pad(f.dy)]

Ties(f, e, must) ==
    LET g == Unbounded(f, e.p)
        o == ObsAccFn(f, e.p)
        may == MayNodes(g, e.paths, e.u) \ must
    IN  {m \in may : (IF m \in DOMAIN o THEN o[m] ELSE 0) = AccAt(f, m) + e.w}

ZNext(t, f, e) ==
    CASE e.op = "new"   -> f
      [] e.op = "prior" -> [Win(f, e.p) EXCEPT !.acc = ObsAccFn(f, e.p), !.tot = e.p.tot]
      [] e.op = "zone"  -> LET must == MustNodes(Unbounded(f, e.p), e.paths, e.u)
                           IN  Win(Zone(f, must, e.w, Ties(f, e, must)), e.p)
      [] e.op = "zint"  -> f

Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}

ZFail(t, f, e) ==
    CASE e.op \in {"new", "prior"} -> {}
      [] e.op = "zint" ->
            Mk({"C07"}, "the interrupt reaches the caller", e.err = e.kind)
       \cup Mk({"C07"}, "the interrupted realization is not registered", e.p.tot = f.tot /\ ObsAccFn(f, e.p) = f.acc)
      [] e.op = "zone" ->
            LET P == IF e.fault THEN {"C06"} ELSE {"C08"} IN
            Mk(P \cup {"C08"}, "the capture zone is computed (ended with " \o e.err \o ")", e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            LET g    == NewFieldAt(1, 1, 0, 0)
                must == MustNodes(Unbounded(f, e.p), e.paths, e.u)
                h    == Zone(f, must, e.w, Ties(f, e, must))
            IN
            Mk(P, "exactly the requested number of particles is traced", Len(e.starts) = e.n /\ Len(e.paths) = e.n)
       \cup Mk({"C08"}, "the particles start at equal angles one metre outside the radius", EquallySpread(e.starts, SR))
       \cup Mk({"C08"}, "each path covers the given duration",
               (e.timed /\ ~e.fault) => \A i \in 1 .. Len(e.clk) : Abs(e.clk[i] - 1000000000) <= t.cres)
       \cup Mk({"C08"}, "each step is shorter than the given maximum step", e.r <= 1000000)
       \cup Mk({"C08"}, "each path keeps the given tolerance", e.rho > 0 => B!MayAccept(e.g, e.rho))
       \cup Mk({"C08"}, "each path is the trace of its particle", ~e.fault => e.agree = e.n)
       \cup Mk({"C06"}, "only the failing particle is cut short",
               e.fault => e.cut <= e.lim /\ e.full + e.cut = e.n)
       \cup Mk({"C06"}, "the failure is reported in the run log", e.fault => e.warn >= 1)
       \cup Mk(P, "the total weight grows once by the weight", e.p.tot = h.tot)
       \cup Mk(P, "exactly the nodes within the umbra of a path receive the weight, once", ObsAccFn(f, e.p) = h.acc)
       \cup Mk(P, "nothing of the realization remains unregistered", Len(e.p.vis) = 0)
=============================================================================
