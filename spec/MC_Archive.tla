----------------------------- MODULE MC_Archive -----------------------------
(* Variant: "good"; "overwrite" = plain creation; "early" = loads what is there; *)
(* "refuse" = gives up if somebody else was faster                               *)
EXTENDS Archive, TLC
CONSTANTS W, MaxRun, Pieces, MaxNow, MaxDamage, Variant
VARIABLES s, runs, ended, seen, dmg          \* seen = the outcome of the load just made
vars == <<s, runs, ended, seen, dmg>>

Init == s = Start0(W) /\ runs = 0 /\ ended = [r \in {} |-> 0] /\ seen = {} /\ dmg = 0
Idle(p) == s.w[p].at \in {"idle", "done", "failed"}
Begin(p) == /\ Idle(p) /\ runs < MaxRun /\ runs' = runs + 1 /\ s' = Ask(s, p, runs + 1) /\ UNCHANGED <<ended, dmg>> /\ seen' = {}
Look(p)  == /\ s.w[p].at = "looking"
            /\ s' = (IF Free(s, p) THEN [s EXCEPT !.w[p].at = "creating"] ELSE Skip(s, p))
            /\ UNCHANGED <<runs, ended, dmg>> /\ seen' = {}
Make(p)  == /\ s.w[p].at = "creating"
            /\ s' = (IF Variant = "overwrite" THEN [Put(s, s.w[p].name, [of |-> s.w[p].run, have |-> 0, good |-> TRUE]) EXCEPT !.w[p].at = "writing"]
                     ELSE IF Variant = "refuse" /\ ~Free(s, p) THEN Refuse(s, p)
                     ELSE Create(s, p))
            /\ UNCHANGED <<runs, ended, dmg>> /\ seen' = {}
Store(p) == /\ s.w[p].at = "writing" /\ s' = Write(s, p, Pieces)
            /\ ended' = (IF s'.w[p].at = "done" THEN [r \in DOMAIN ended \cup {s.w[p].run} |->
                            IF r = s.w[p].run THEN s.w[p].name ELSE ended[r]] ELSE ended)
            /\ UNCHANGED <<runs, dmg>> /\ seen' = {}
Cut(p)   == /\ s.w[p].at \in {"looking", "creating", "writing"} /\ s' = Die(s, p) /\ UNCHANGED <<runs, ended, dmg>> /\ seen' = {}
Tick     == /\ s.now < MaxNow /\ s' = [s EXCEPT !.now = @ + 1] /\ UNCHANGED <<runs, ended, dmg>> /\ seen' = {}
Harm     == /\ dmg < MaxDamage /\ dmg' = dmg + 1 /\ \E nm \in Taken(s) : s' = Damage(s, nm)
            /\ UNCHANGED <<runs, ended>> /\ seen' = {}
Read     == \E nm \in Taken(s) :
              /\ seen' = {<<nm, (IF Variant = "early" THEN s.file[nm].of ELSE Load(s, nm, Pieces)), s.file[nm].have, s.file[nm].good>>}
              /\ UNCHANGED <<s, runs, ended, dmg>>
Next == (\E p \in W : Begin(p) \/ Look(p) \/ Make(p) \/ Store(p) \/ Cut(p)) \/ Tick \/ Harm \/ Read
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* every run that ended has its own file, complete, unless damaged from outside
EveryRunKept == \A r \in DOMAIN ended : ended[r] \in Taken(s) /\ s.file[ended[r]].of = r /\ s.file[ended[r]].have = Pieces
OneFileEach  == \A r1, r2 \in DOMAIN ended : r1 # r2 => ended[r1] # ended[r2]
\* no run that was not cut off loses its result
NobodyFails  == \A p \in W : s.w[p].at # "failed"
\* ... and nobody looks for a name forever
Fair == Spec /\ \A p \in W : WF_vars(Look(p) \/ Make(p) \/ Store(p))
GetsThere == \A p \in W : s.w[p].at = "looking" ~> s.w[p].at \in {"done", "dead"}
LoadedIsComplete == \A x \in seen : x[2] = 0 \/ (x[3] = Pieces /\ x[4])
FilesStay == [][\A nm \in Taken(s) : nm \in Taken(s') /\ s'.file[nm].of = s.file[nm].of
                                     /\ s'.file[nm].have >= s.file[nm].have]_vars
=============================================================================
