----------------------------- MODULE Trace_Run -----------------------------
(***************************************************************************)
(* Validates recorded histories of whole runs.  Events:                    *)
(*   begin   cfg (integers; see drv_run.Cfg.ints)                          *)
(*   real    one registration: snaps = distinct states of the model seen   *)
(*           since the last one; ntracks, agree = tracks rasterized, and   *)
(*           how many of them are traces of a fresh model in that state;   *)
(*           paths, cuts = those traces (ticks) and how many end early;    *)
(*           z = whitened deviation of the coefficients from the fit of a  *)
(*           fresh model (10^-6 standard deviations); fdev = deviation of  *)
(*           the fits made by the run (10^-9 sd); warn, entry = the log    *)
(*           since the last registration; p = the field (Trace_ProbField); *)
(*           ids = the values drawn from distributions of some width, zid  *)
(*           = the deviation z, each as the number of its first appearance *)
(*           in the history                                                *)
(*   end     err, want = the interrupt injected ("" if none), soft = it     *)
(*           came while the grid was growing; last = the field; files = the archives; log = what *)
(*           the log says about the parameters; smooth, filled, digest     *)
(*   unknown the driver was called with an unknown module                  *)
(*   law     counts over many realizations                                 *)
(* State: r = the run (Run.tla), f = its field (ProbField), k = number of  *)
(* archives, dig = digests of the fields of completed deterministic runs.  *)
(***************************************************************************)
EXTENDS CaptureZone, Variates, TraceKit
R == INSTANCE Run

Win(f, p) == [f EXCEPT !.empty = FALSE, !.x0 = p.x0, !.x1 = p.x1, !.y0 = p.y0, !.y1 = p.y1]
ObsAccFn(f, p) == [m \in {<<p.x0 + p.acc[i][1] * f.dx, p.y0 + p.acc[i][2] * f.dy>> : i \in 1 .. Len(p.acc)}
                    |-> LET i == CHOOSE i \in 1 .. Len(p.acc) : <<p.x0 + p.acc[i][1] * f.dx, p.y0 + p.acc[i][2] * f.dy>> = m
                        IN  p.acc[i][3]]
Unbounded(f, p) ==
    LET pad(d) == 6 * d IN
    [Win(f, p) EXCEPT !.x0 = p.x0 - pad(f.dx), !.x1 = p.x1 + pad(f.dx), !.y0 = p.y0 - pad(f.dy), !.y1 = p.y1 + pad(f.dy)]

W == 8                                \* the weight of a realization, in eighths
Must(s, e) == MustNodes(Unbounded(s.f, e.p), e.paths, s.r.cfg.u)
Ties(s, e, must) ==
    LET o == ObsAccFn(s.f, e.p)
        may == MayNodes(Unbounded(s.f, e.p), e.paths, s.r.cfg.u) \ must
    IN  {m \in may : (IF m \in DOMAIN o THEN o[m] ELSE 0) = AccAt(s.f, m) + W}
After(s, e) == LET must == Must(s, e) IN Zone(s.f, must, W, Ties(s, e, must))

UInit(t) == [r |-> R!Init0, f |-> NewFieldAt(1, 1, 0, 0), k |-> 0, dig |-> {}, seen |-> {}, zseen |-> {}]

Filtered(s, c) == R!Filter(R!Begin(s.r, c))

UNext(t, s, e) ==
    CASE e.op = "begin" -> [s EXCEPT !.r = Filtered(s, e.cfg), !.f = NewFieldAt(e.cfg.dx, e.cfg.dx, e.cfg.xt, e.cfg.yt)]
      [] e.op = "real"  -> [s EXCEPT !.r = R!Realize(@, e.snaps[1], e.cuts), !.f = Win(After(s, e), e.p),
                                     !.seen = @ \cup {e.ids[i] : i \in 1 .. Len(e.ids)},
                                     !.zseen = @ \cup {e.zid}]
      [] e.op = "end"   ->
            IF e.want # "" THEN [s EXCEPT !.r = R!Interrupt(@)]
            ELSE IF s.r.cfg.via = "direct" THEN [s EXCEPT !.r.phase = "done",
                        !.dig = IF R!Stochastic(s.r.cfg) THEN @ ELSE @ \cup {<<s.r.cfg, e.digest>>}]
            ELSE [s EXCEPT !.r = R!Archive(@), !.k = @ + 1,
                           !.dig = IF R!Stochastic(s.r.cfg) THEN @ ELSE @ \cup {<<s.r.cfg, e.digest>>}]
      [] OTHER -> s

Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}

Sto(s) == R!Stochastic(s.r.cfg)
Whose(s) == IF Sto(s) THEN {"C09"} ELSE {"C11"}
Both == {"C09", "C11"}

\* an entry of the log: every logged number is the actual one rounded as it is written
Pairs(x) == \A i \in 1 .. Len(x.pairs) : x.pairs[i][2] = -1 \/ Abs(x.pairs[i][1] - x.pairs[i][2]) <= 52
Named(e, w) == {i \in 1 .. Len(e.entry) : e.entry[i].what = w}
One(e, w, n) == Cardinality(Named(e, w)) = 1 /\ \A i \in Named(e, w) : Len(e.entry[i].pairs) = n

OnWell(c, m, i) == /\ Abs(m.wells[i][1] - c.wells[i].x) <= 1
                   /\ Abs(m.wells[i][2] - c.wells[i].y) <= 1
                   /\ Abs(m.wells[i][3] - c.wells[i].r) <= 1

InLaw(s, d, v) == IF Sto(s) THEN InSupport(d, v) ELSE IsMean(d, v)

FailReal(t, s, e) ==
    LET c == s.r.cfg
        P == Whose(s)
        Q == P \cup {"C23"}
    IN  Mk(P \cup {"C07"}, "no more realizations are registered than asked for", R!CanDraw(s.r))
   \cup Mk(Q, "one realization has one model", e.nsnap = 1)
   \cup IF e.nsnap = 0 \/ ~R!CanDraw(s.r) THEN {} ELSE
        LET m == e.snaps[1] IN
        Mk(Q, "the base elevation is the given one", m.base = c.base)
   \cup Mk(Q, "conductivity, porosity and thickness follow their distributions",
           InLaw(s, c.c, m.c) /\ InLaw(s, c.p, m.p) /\ InLaw(s, c.t, m.t))
   \cup Mk(Q, "the wells are the given ones", Len(m.wells) = Len(c.wells)
                                         /\ \A i \in 1 .. Min2(Len(m.wells), Len(c.wells)) : OnWell(c, m, i))
   \cup Mk(Q, "each discharge follows the distribution of its well",
           Len(m.wells) = Len(c.wells) => \A i \in 1 .. Len(m.wells) : InLaw(s, c.wells[i].d, m.wells[i][4]))
   \cup Mk({"C09"}, "every draw is a new one, for every property and well of every realization",
           /\ \A i \in 1 .. Len(e.ids) : e.ids[i] \notin s.seen
           /\ \A i, j \in 1 .. Len(e.ids) : i # j => e.ids[i] # e.ids[j])
   \cup Mk({"C10"}, "every regional flow is a new draw", Sto(s) => e.zid \notin s.zseen)
   \cup Mk(Q \cup {"C10"}, "the origin of the regional flow is the target well", m.o = <<c.xt, c.yt>>)
   \cup Mk({"C10", "C23"}, "the regional flow is a draw from the realization's own fit",
           Sto(s) => \A i \in 1 .. Len(e.z) : Abs(e.z[i]) <= 7000000)
   \cup Mk({"C10", "C23"}, "the fit is made under the realization's own properties, to the filtered observations", Sto(s) => e.fdev <= 1000)
   \cup Mk({"C11", "C23"}, "the regional flow is the fit itself", ~Sto(s) => \A i \in 1 .. Len(e.z) : Abs(e.z[i]) <= 10)
   \cup Mk({"C11", "C23"}, "the fit is made with the mean of everything", ~Sto(s) => e.fdev <= 1000)
   \cup Mk(Q \cup {"C08"}, "the requested number of particles is traced", e.ntracks = c.np \/ e.ntracks = 0)
   \cup Mk(Q \cup {"C08"}, "every track is the trace of a particle in the realization's own flow", e.ntracks = 0 \/ e.agree = c.np)
   \cup Mk({"C06", "C25"}, "every trace that ends early is reported in the log, no other", e.warn = e.cuts)
   \cup Mk(Q \cup {"C08"}, "the particles start at equal angles one metre outside the target well", EquallySpread(e.starts, 20000))
   \cup (LET h == After(s, e) IN
            Mk(Q \cup {"C06", "C08"}, "the realization has weight one", e.p.tot = h.tot)
       \cup Mk(Q \cup {"C06", "C08"}, "exactly the nodes within the umbra of the realization's own paths receive the weight",
               ObsAccFn(s.f, e.p) = h.acc)
       \cup Mk(Q \cup {"C08"}, "the grid has the given spacing about the target",
               /\ (e.p.x0 - c.xt) % c.dx = 0 /\ (e.p.y0 - c.yt) % c.dx = 0
               /\ e.p.x1 - e.p.x0 = (e.p.nc - 1) * c.dx /\ e.p.y1 - e.p.y0 = (e.p.nr - 1) * c.dx /\ e.p.res <= 1000))
   \cup (IF Sto(s) THEN
            Mk({"C25"}, "one entry per realization, with the properties used",
               /\ One(e, "head", 6)
               /\ \A i \in Named(e, "head") : Pairs(e.entry[i]) /\ e.entry[i].pairs[1][1] = Len(s.r.field))
       \cup Mk({"C25"}, "the fitted and the drawn coefficients are logged",
               /\ One(e, "ev", 6) /\ One(e, "rng", 6)
               /\ \A i \in Named(e, "ev") \cup Named(e, "rng") : Pairs(e.entry[i]))
         ELSE
            Mk({"C25"}, "the mean properties, the recharge and the fitted coefficients are logged",
               /\ \A w \in {"conductivity", "porosity", "thickness", "recharge", "A", "B", "C", "D", "E", "F"} : One(e, w, 1)
               /\ Named(e, "base") # {}
               /\ \A i \in 1 .. Len(e.entry) : Pairs(e.entry[i])))

ParNames == {"target", "npaths", "duration", "nrealizations", "base", "c_dist", "p_dist", "t_dist", "buffer",
             "spacing", "umbra", "smooth", "tol", "maxstep"}
AllNames == ParNames \cup {"projectname", "runtime", "stochastic_wells", "observations", "confined"}

Row(x, v) == Len(x) = Len(v) /\ \A i \in 1 .. Min2(Len(x), Len(v)) : Abs(x[i] - v[i]) <= 1
Rows(lv) == Len(lv[1]) = Len(lv[2]) /\ \A i \in 1 .. Min2(Len(lv[1]), Len(lv[2])) : Row(lv[1][i], lv[2][i])

FilesKept(s, e) == /\ Len(e.files) >= s.k
                   /\ \A i \in 1 .. Min2(s.k, Len(e.files)) : e.files[i].kept /\ ~e.files[i].new

FailEnd(t, s, e) ==
    LET c == s.r.cfg
        P == Whose(s)
    IN  IF e.want # "" THEN
            Mk({"C07"}, "the interrupt reaches the caller", e.err = e.want)
       \cup Mk({"C07"}, "no archive is written", Len(e.files) = s.k)
       \cup Mk({"C07", "C21"}, "the archives of earlier runs stay as they are", FilesKept(s, e))
       \cup Mk({"C07"}, "the field holds complete realizations only",
               Len(s.r.field) > 0 => e.last.tot = s.f.tot /\ (~e.soft => ObsAccFn(s.f, e.last) = s.f.acc))
        ELSE
            Mk(P \cup {"C06", "C08", "C20", "C21", "C23", "C25"}, "the run ends normally (" \o e.err \o ")", e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            Mk(P \cup {"C06", "C07", "C23"}, "as many realizations are registered as asked for", Len(s.r.field) = R!NReal(c))
       \cup Mk(P \cup {"C23"}, "the field is that of the registered realizations",
               e.field /\ e.last.tot = s.f.tot /\ ObsAccFn(s.f, e.last) = s.f.acc)
       \cup Mk({"C11"}, "total weight one and values zero or one",
               ~Sto(s) => e.last.tot = W /\ \A i \in 1 .. Len(e.last.acc) : e.last.acc[i][3] = W)
       \cup Mk({"C11"}, "the same run gives the same field",
               ~Sto(s) => \A d \in s.dig : [d[1] EXCEPT !.via = ""] = [c EXCEPT !.via = ""] => d[2] = e.digest)
       \cup Mk({"C06", "C25"}, "no warning without a trace that ends early", e.warn = s.r.warns)
       \cup IF c.via = "direct" THEN Mk({"C21"}, "no archive", Len(e.files) = s.k) ELSE
            Mk({"C21", "C23", "C20", "C07"}, "one new archive", Len(e.files) = s.k + 1)
       \cup Mk({"C21"}, "the archives of earlier runs stay as they are", FilesKept(s, e))
       \cup (IF Len(e.files) # s.k + 1 THEN {} ELSE
             LET a == e.files[s.k + 1] IN
             Mk({"C21", "C23"}, "the archive gives back every parameter under its name",
                a.new /\ {a.names[i] : i \in 1 .. Len(a.names)} = AllNames)
        \cup Mk({"C21", "C23"}, "the archive gives back the field", a.field))
       \cup Mk({"C25"}, "the log names every numeric parameter",
               /\ {e.log.pars[i][1] : i \in 1 .. Len(e.log.pars)} = ParNames
               /\ \A i \in 1 .. Len(e.log.pars) :
                     LET x == e.log.pars[i] IN
                     Len(x[2]) = Len(x[3]) /\ \A j \in 1 .. Min2(Len(x[2]), Len(x[3])) : Abs(x[2][j] - x[3][j]) <= 51)
       \cup Mk({"C25"}, "the log names the project, the time, the flag and the kind of run",
               /\ {e.log.texts[i][1] : i \in 1 .. Len(e.log.texts)} = {"projectname", "runtime", "confined", "kind"}
               /\ \A i \in 1 .. Len(e.log.texts) : e.log.texts[i][2] = e.log.texts[i][3])
       \cup Mk({"C25"}, "the log lists every well and observation given", Rows(e.log.wells) /\ Rows(e.log.obs))
       \cup Mk({"C23"}, "the map is smoothed as asked for", Sto(s) => e.smooth >= 0 /\ e.smooth <= 1000)
       \cup Mk({"C23"}, "one realization is shown as a deterministic zone", ~Sto(s) => ((e.filled > 0) <=> (Len(e.last.acc) > 0)))
       \cup Mk({"C25", "C23"}, "the driver's log file holds the log", e.logfile)

FailUnknown(t, s, e) ==
    Mk({"C23"}, "an unknown module is reported without running anything",
       e.err = "" /\ e.said /\ e.nev = 0 /\ Len(e.files) = s.k /\ FilesKept(s, e))

\* probabilities of the cells [-inf,-2), [-2,-1.5), ... [2, inf) of the normal law, in 10^-4
NormalCells == <<228, 440, 919, 1499, 1915, 1915, 1499, 919, 440, 228>>

\* of deviating by more than 2.5, 3, 3.5 standard deviations
NormalTails == <<124, 27, 5>>

FailLaw(t, s, e) ==
    LET n == e.n
        S(v) == (v \div 10) * (v \div 10) IN
        Mk({"C09"}, "as many realizations as asked for (" \o e.err \o ")", e.err = "" /\ n = e.asked)
   \cup IF e.err # "" \/ n # e.asked THEN {} ELSE
        Mk({"C09"}, "one model per realization, with all the wells", Len(e.hist) = Len(e.dists))
   \cup IF Len(e.hist) # Len(e.dists) THEN {} ELSE
        Mk({"C09"}, "every property and discharge follows its own law",
           \A i \in 1 .. Len(e.dists) : FollowsLaw(e.dists[i], e.hist[i], n))
   \cup Mk({"C09", "C10"}, "all draws of a run are independent",
           \A i \in 1 .. Len(e.pairs) : Independent(e.pairs[i][1], e.pairs[i][2], e.pairs[i][3], e.pairs[i][4]))
   \cup Mk({"C10"}, "the regional flow has the mean and covariance of the fit",
           /\ \A j \in 1 .. 6 : S(e.zsum[j]) <= 43 * n + 60
           /\ \A j \in 1 .. 6 : LET d == (e.zsq[j] - 10 * n) \div 10 IN d * d <= 86 * n + 60
           /\ LET d == (e.zsq[1] + e.zsq[2] + e.zsq[3] + e.zsq[4] + e.zsq[5] + e.zsq[6] - 60 * n) \div 10
              IN d * d <= 516 * n + 60
           /\ \A j \in 1 .. 6 : \A i \in 1 .. 10 : Plausible(e.zhist[j][i], n, <<NormalCells[i], 10000>>)
           /\ \A i \in 1 .. 3 : Plausible(e.ztail[i], 6 * n, <<NormalTails[i], 10000>>)
           /\ \A j \in 1 .. 6 : Plausible(e.ytail[j], n, <<NormalTails[1], 10000>>))
   \cup Mk({"C09", "C10"}, "no value is drawn again and again", e.rep <= 2)

UFail(t, s, e) ==
    CASE e.op = "begin"   -> {}
      [] e.op = "real"    -> FailReal(t, s, e)
      [] e.op = "end"     -> FailEnd(t, s, e)
      [] e.op = "unknown" -> FailUnknown(t, s, e)
      [] e.op = "law"     -> FailLaw(t, s, e)
=============================================================================
