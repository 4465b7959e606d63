--------------------------- MODULE Trace_LogFiles ---------------------------
(***************************************************************************)
(* Validates histories of runs through the driver (C27).  State: files =   *)
(* contents of the log files in order of appearance, as <<run, from, to>>. *)
(* Events, each with the files seen after it:                              *)
(*   run       run id said n records and ended (completed, failed,         *)
(*             interrupted)                                                *)
(*   nothing   an unknown module: no run                                   *)
(*   outside   records said outside of runs                                *)
(*   together  runs of several processes, starting together: runs =        *)
(*             <<id, n>>; names appear in any order                        *)
(***************************************************************************)
EXTENDS LogFiles, TraceKit
LInit(t) == [files |-> <<>>]
LNext(t, s, e) ==
    CASE e.op = "run"      -> [s EXCEPT !.files = AfterRun(@, e.id, e.n)]
      [] e.op = "together" -> [s EXCEPT !.files = e.files]
      [] OTHER -> s
Mk(clause, cond) == IF cond THEN {} ELSE {<<"C27", clause>>}
Kept(s, e) == /\ Len(e.files) >= Len(s.files)
              /\ \A i \in 1 .. Len(s.files) : i <= Len(e.files) => e.files[i] = s.files[i]
Old(s, e) == Mk("log files of other runs are never altered", Kept(s, e))
New(s, e) == IF Len(e.files) <= Len(s.files) THEN <<>> ELSE SubSeq(e.files, Len(s.files) + 1, Len(e.files))
LFail(t, s, e) ==
       Old(s, e)
  \cup CASE e.op = "run" ->
            Mk("the run has one log file of its own", Len(e.files) = Len(s.files) + 1)
       \cup Mk("the log file holds every record of the run and nothing else",
               Len(e.files) > Len(s.files) => e.files[Len(e.files)] = Whole(e.id, e.n))
       \cup Mk("the run says something", e.speaks => e.n > 0)
       \cup Mk("the run ends as it should (" \o e.err \o ")", e.err = e.want)
         [] e.op = "nothing" -> Mk("an unknown module leaves no log file", e.files = s.files)
         [] e.op = "outside" -> Mk("what is said outside of runs is in no log file", e.files = s.files)
         [] e.op = "together" ->
            Mk("every run has one log file of its own", Len(New(s, e)) = Len(e.runs))
       \cup Mk("each log file holds every record of its run and nothing else",
               {New(s, e)[i] : i \in 1 .. Len(New(s, e))} = {Whole(e.runs[i][1], e.runs[i][2]) : i \in 1 .. Len(e.runs)})
       \cup Mk("the runs complete", \A i \in 1 .. Len(e.runs) : e.runs[i][3] = 0)
=============================================================================
