------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* The archives of runs.  A run that ends at second t takes the first free *)
(* name of that second (the next one if somebody else was faster), creates *)
(* the file exclusively, writes its content                                *)
(* piece by piece and closes it.  Processes work side by side and may be   *)
(* cut off at any point; whoever loads a file gets the complete content or *)
(* an error.                                                               *)
(*                                                                         *)
(* State (a record):                                                       *)
(*   now     the second                                                    *)
(*   file    names <<second, count>> -> [of, have, good]: the run it       *)
(*           belongs to, pieces on disk, pieces undamaged                  *)
(*   w       writers: [run, at, name, have]; at = idle, looking, writing,  *)
(*           done, failed, dead                                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Start0(W) == [now |-> 0, file |-> [x \in {} |-> 0], w |-> [p \in W |-> [run |-> 0, at |-> "idle", name |-> <<0, 0>>, have |-> 0]]]

Taken(s) == DOMAIN s.file
Put(s, nm, f) == [s EXCEPT !.file = [x \in Taken(s) \cup {nm} |-> IF x = nm THEN f ELSE @[x]]]

\* a run ends: its archive is to be written, looking at the names of this second
Ask(s, p, r) == [s EXCEPT !.w[p] = [run |-> r, at |-> "looking", name |-> <<s.now, 0>>, have |-> 0]]
\* the name is taken: try the next
Skip(s, p)   == [s EXCEPT !.w[p].name = <<@[1], @[2] + 1>>]
Free(s, p)   == s.w[p].name \notin Taken(s)
\* it was free when looked at: created now, or the next name is tried if somebody was faster
Create(s, p) == IF Free(s, p) THEN [Put(s, s.w[p].name, [of |-> s.w[p].run, have |-> 0, good |-> TRUE]) EXCEPT !.w[p].at = "writing"]
                ELSE [Skip(s, p) EXCEPT !.w[p].at = "looking"]
Refuse(s, p) == [s EXCEPT !.w[p].at = "failed"]
Write(s, p, n) == LET h == s.w[p].have + 1 IN
    [Put(s, s.w[p].name, [s.file[s.w[p].name] EXCEPT !.have = h]) EXCEPT !.w[p].have = h, !.w[p].at = IF h = n THEN "done" ELSE "writing"]
Die(s, p)    == [s EXCEPT !.w[p].at = "dead"]
Damage(s, nm) == [s EXCEPT !.file[nm].good = FALSE]

\* what loading a file of n pieces yields: the run, or 0 for an error
Load(s, nm, n) == IF s.file[nm].have = n /\ s.file[nm].good THEN s.file[nm].of ELSE 0

\* whole runs one after another, as seen from outside: every run that ended is one
\* file more, and no file of an earlier one changes
Dumped(before, after) == \* sequences of <<name, content>> in order of appearance
    /\ Len(after) = Len(before) + 1
    /\ \A i \in 1 .. Len(before) : after[i] = before[i]
=============================================================================
