---------------------------- MODULE MC_LogFiles ----------------------------
(* Variant: "good"; "stays" = never detached; "ends" = detached only if the *)
(* run completes; "second" = one name for each second                       *)
EXTENDS LogFiles, TLC
CONSTANTS P, MaxRun, MaxRec, MaxNow, Variant
VARIABLES s, runs, said, over
vars == <<s, runs, said, over>>

Init == s = Empty(P) /\ runs = 0 /\ said = [r \in 1 .. MaxRun |-> 0] /\ over = {}
Idle(p) == s.run[p].at = "idle"
Start(p) == /\ Idle(p) /\ runs < MaxRun /\ runs' = runs + 1
            /\ s' = Open(s, p, runs + 1, IF Variant = "second" THEN <<s.now, 0>> ELSE First(s))
            /\ UNCHANGED <<said, over>>
Rec(p)   == /\ ~Idle(p) /\ s.run[p].n < MaxRec /\ s' = Record(s, p)
            /\ said' = [said EXCEPT ![s.run[p].id] = @ + 1] /\ UNCHANGED <<runs, over>>
Outside(p) == /\ Idle(p) /\ s' = Say(s, p, 0, 0) /\ UNCHANGED <<runs, said, over>>
Complete(p) == /\ ~Idle(p) /\ s.run[p].n = MaxRec
               /\ s' = (IF Variant = "stays" THEN [s EXCEPT !.run[p].at = "idle"] ELSE Detach(s, p))
               /\ over' = over \cup {s.run[p].id} /\ UNCHANGED <<runs, said>>
Fail(p)  == /\ ~Idle(p)
            /\ s' = (IF Variant \in {"stays", "ends"} THEN [s EXCEPT !.run[p].at = "idle"] ELSE Detach(s, p))
            /\ over' = over \cup {s.run[p].id} /\ UNCHANGED <<runs, said>>
Tick     == s.now < MaxNow /\ s' = [s EXCEPT !.now = @ + 1] /\ UNCHANGED <<runs, said, over>>
Next == (\E p \in P : Start(p) \/ Rec(p) \/ Outside(p) \/ Complete(p) \/ Fail(p)) \/ Tick
Spec == Init /\ [][Next]_vars
Small == \A i \in 1 .. Len(s.file) : Len(s.file[i].recs) <= MaxRec + 1

----------------------------------------------------------------------------
\* the i-th file is that of the i-th run: all its records, in order, and nothing else
OwnRecords == /\ Len(s.file) = runs
              /\ \A i \in 1 .. Len(s.file) : s.file[i].recs = [k \in 1 .. said[i] |-> <<i, k>>]
OneNameEach == \A i, j \in 1 .. Len(s.file) : i # j => s.file[i].name # s.file[j].name
\* no file changes once its run is over
OldFilesStay == [][\A r \in over : s'.file[r] = s.file[r]]_vars
NothingAttachedAfterwards == \A p \in P : Idle(p) => s.att[p] = {}
=============================================================================
