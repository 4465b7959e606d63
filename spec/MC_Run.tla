------------------------------- MODULE MC_Run -------------------------------
(***************************************************************************)
(* Several runs in one process, any outcome of the draws, of every         *)
(* particle, an interrupt at any moment of the tracing.                    *)
(* Variant: "good", or a wrong variant that TLC must refute.               *)
(***************************************************************************)
EXTENDS Run

CONSTANTS MaxRuns, MaxN, MaxP, Variant

Sup == {{1}, {1, 2}}              \* the support of every distribution
Cfgs == [n : 0 .. MaxN, np : 1 .. MaxP, sup : Sup, valid : BOOLEAN, left : {6, 7}]
MeanOf(S) == IF S = {1} THEN 2 ELSE 3          \* twice the mean

\* a model: property c (doubled), the property its regional flow was fitted under,
\* and the deviation z of its regional flow from that fit
Models(c) == IF Stochastic(c) THEN [c : {2 * v : v \in c.sup}, fit : {2, 3, 4}, z : {0, 1}]
             ELSE [c : {MeanOf(c.sup)}, fit : {2, 3, 4}, z : {0}]
Consistent(m) == m.fit = m.c

VARIABLES s, runs
vars == <<s, runs>>

Init == s = Init0 /\ runs = 0

Start  == /\ Ended(s) /\ runs < MaxRuns
          /\ \E c \in Cfgs : s' = Begin(s, c)
          /\ runs' = runs + 1
Check  == /\ s.phase = "begun"
          /\ s' = IF s.cfg.valid /\ s.cfg.left > 6 THEN Filter(s) ELSE Reject(s)
          /\ UNCHANGED runs
DrawIt == /\ CanDraw(s)
          /\ \E m \in Models(s.cfg) :
               /\ IF Variant = "stale" /\ Len(s.field) > 0 THEN m.fit = s.field[1][1].c ELSE Consistent(m)
               /\ s' = Draw(s, m)
          /\ UNCHANGED runs
Move   == /\ CanTrace(s)
          /\ \E how \in {"full", "cut"} : s' = Trace1(s, how)
          /\ UNCHANGED runs
Reg    == /\ CanRegister(s) /\ s' = Register1(s) /\ UNCHANGED runs
Break  == /\ s.phase = "tracing"
          /\ s' = CASE Variant = "swallow" /\ CanTrace(s) -> [s EXCEPT !.traced = Append(@, "cut")]
                    [] Variant = "finally" -> [Register1(s) EXCEPT !.phase = "interrupted"]
                    [] OTHER -> Interrupt(s)
          /\ UNCHANGED runs
Finish == /\ CanArchive(s)
          /\ s' = IF Variant = "overwrite" /\ Len(s.arch) > 0
                  THEN [Archive(s) EXCEPT !.arch = <<@[Len(@)]>>] ELSE Archive(s)
          /\ UNCHANGED runs

Next == Start \/ Check \/ DrawIt \/ Move \/ Reg \/ Break \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Cuts(f) == LET cnt(r) == Cardinality({i \in 1 .. Len(r[2]) : r[2][i] = "cut"})
               RECURSIVE sum(_)
               sum(i) == IF i = 0 THEN 0 ELSE cnt(f[i]) + sum(i - 1)
           IN  sum(Len(f))

\* C09, C11: the field holds complete, self-consistent realizations only
CompleteRealizations ==
    \A i \in 1 .. Len(s.field) :
        LET m == s.field[i][1] IN
        /\ Len(s.field[i][2]) = s.cfg.np
        /\ Consistent(m)
        /\ IF Stochastic(s.cfg) THEN m.c \div 2 \in s.cfg.sup ELSE m.c = MeanOf(s.cfg.sup) /\ m.z = 0
\* C06, C07, C25
EveryCutIsReported == s.phase # "tracing" /\ s.phase # "interrupted" => s.warns = Cuts(s.field)
EntriesMatch == Len(s.entries) = Len(s.field) + (IF s.phase \in {"tracing", "interrupted"} THEN 1 ELSE 0)
                /\ \A i \in 1 .. Len(s.field) : s.entries[i] = s.field[i][1]
\* C07, C20, C21: an archive is the complete result of a valid run
ArchivesComplete ==
    \A i \in 1 .. Len(s.arch) :
        /\ s.arch[i][1].valid /\ s.arch[i][1].left > 6
        /\ Len(s.arch[i][2]) = NReal(s.arch[i][1])
\* C20
NothingBeforeValidation == s.phase \in {"begun", "rejected"} => s.field = <<>> /\ s.entries = <<>>
\* C21: archives are only ever added, one by each completed run
ArchivesOnlyGrow ==
    [][/\ Len(s'.arch) >= Len(s.arch)
       /\ SubSeq(s'.arch, 1, Len(s.arch)) = s.arch
       /\ s'.arch # s.arch => s'.phase = "done" /\ s.phase # "done"]_vars
=============================================================================
