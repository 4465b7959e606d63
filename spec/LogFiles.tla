------------------------------ MODULE LogFiles ------------------------------
(***************************************************************************)
(* The log files of runs.  A run of a data module creates a log file of    *)
(* its own - the first free name of the second in which it starts - and    *)
(* attaches it to the logger of its process; every record goes to all      *)
(* files attached there.  However the run ends, its file is detached.      *)
(*                                                                         *)
(* State (a record):                                                       *)
(*   now     the second                                                    *)
(*   file    sequence of [name, recs]; recs = <<run, number>> in order     *)
(*   att     process -> set of names attached to its logger                *)
(*   run     process -> [id, at, n]: the run in it, records written so far *)
(* Records that belong to no run have the run 0.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty(P) == [now |-> 0, file |-> <<>>, att |-> [p \in P |-> {}],
             run |-> [p \in P |-> [id |-> 0, at |-> "idle", name |-> <<0, 0>>, n |-> 0]]]

Taken(s)   == {s.file[i].name : i \in 1 .. Len(s.file)}
First(s)   == <<s.now, CHOOSE k \in 0 .. Len(s.file) : <<s.now, k>> \notin Taken(s) /\ \A j \in 0 .. k - 1 : <<s.now, j>> \in Taken(s)>>
Open(s, p, r, nm) ==
    [s EXCEPT !.file = IF nm \in Taken(s) THEN @ ELSE Append(@, [name |-> nm, recs |-> <<>>]),
              !.att[p] = @ \cup {nm},
              !.run[p] = [id |-> r, at |-> "running", name |-> nm, n |-> 0]]
\* a record of run r (0: outside of runs), the k-th one, said in process p
Say(s, p, r, k) ==
    [s EXCEPT !.file = [i \in 1 .. Len(s.file) |->
        IF s.file[i].name \in s.att[p] THEN [s.file[i] EXCEPT !.recs = Append(@, <<r, k>>)] ELSE s.file[i]]]
Record(s, p) == [Say(s, p, s.run[p].id, s.run[p].n + 1) EXCEPT !.run[p].n = @ + 1]
Detach(s, p) == [s EXCEPT !.att[p] = @ \ {s.run[p].name}, !.run[p].at = "idle"]

----------------------------------------------------------------------------
\* seen from outside, run after run: files as sequences of <<run, from, to>>
Whole(r, n) == IF n = 0 THEN <<>> ELSE <<<<r, 1, n>>>>
AfterRun(files, r, n) == Append(files, Whole(r, n))
=============================================================================
