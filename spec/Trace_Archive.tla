--------------------------- MODULE Trace_Archive ---------------------------
(***************************************************************************)
(* Validates histories of archives (C21).  State: files = <<name, digest>> *)
(* of the archives, in order of appearance.  Events:                       *)
(*   dump     a run's archive is written: err, files, loads = what loading *)
(*            the new files gives (same, other, error)                     *)
(*   cut      the same in a process whose writing ends at some byte        *)
(*   parallel several processes at once; asked, ok = dumps, and those that *)
(*            returned, distinct = different runs found in the new files   *)
(*   reload   every file loaded again                                      *)
(*   removed  the user removes a file                                      *)
(*   probe    loading an archive altered outside                           *)
(***************************************************************************)
EXTENDS Archive, TraceKit
AInit(t) == [files |-> <<>>]
ANext(t, s, e) ==
    CASE e.op \in {"dump", "cut", "parallel"} -> [s EXCEPT !.files = e.files]
      [] e.op = "removed" -> [s EXCEPT !.files = SelectSeq(@, LAMBDA x : x[1] # e.name)]
      [] OTHER -> s
Mk(clause, cond) == IF cond THEN {} ELSE {<<"C21", clause>>}
Kept(s, e) == Len(e.files) >= Len(s.files) /\ \A i \in 1 .. Len(s.files) : i <= Len(e.files) => e.files[i] = s.files[i]
Old(s, e) == Mk("archives of earlier runs are never altered", Kept(s, e))

AFail(t, s, e) ==
    CASE e.op = "dump" ->
            Mk("the archive is written (" \o e.err \o ")", e.err = "")
       \cup Old(s, e)
       \cup Mk("one new archive for each run", e.err = "" => Dumped(s.files, e.files))
       \cup Mk("loading gives back everything under its own name", \A i \in 1 .. Len(e.loads) : e.loads[i] = "same")
       \cup Mk("archiving changes nothing of the run", e.args)
      [] e.op = "cut" ->
            Old(s, e)
       \cup Mk("at most one file for each run", Len(e.files) <= Len(s.files) + 1)
       \cup Mk("a half-written archive gives an error or everything", \A i \in 1 .. Len(e.loads) : e.loads[i] \in {"error", "same"})
       \cup Mk("an archive written without error is complete",
               e.ok => Dumped(s.files, e.files) /\ \A i \in 1 .. Len(e.loads) : e.loads[i] = "same")
      [] e.op = "parallel" ->
            Old(s, e)
       \cup Mk("runs that end at the same instant all get their archive", e.ok = e.asked)
       \cup Mk("every run that ended has its own complete archive", e.distinct = e.ok /\ Len(e.files) = Len(s.files) + e.ok)
       \cup Mk("loading gives back one run or an error", \A i \in 1 .. Len(e.loads) : e.loads[i] \in {"error", "same"})
      [] e.op = "reload" ->
            Mk("archives of earlier runs are never altered", e.files = s.files)
       \cup Mk("loading again gives back the same", \A i \in 1 .. Len(e.loads) : e.loads[i] = "same")
      [] e.op = "removed" -> {}
      [] e.op = "probe" ->
            Mk("a whole archive is loaded", e.kind = "whole" => e.load = "same")
       \cup Mk("a damaged archive (" \o e.kind \o ") gives an error or everything", e.load \in {"error", "same"})
=============================================================================
