---------------------------- MODULE MC_Backtrace ----------------------------
(* All behaviours of the step control: any duration of either sign, any     *)
(* outcome of the error estimate, any failing or interrupted evaluation.    *)
EXTENDS Backtrace, TLC
CONSTANTS MaxT, Dts, Clipped
VARIABLES T, s, rej
vars == <<T, s, rej>>

Init == /\ T \in (-MaxT .. MaxT) \ {0}
        /\ \E d \in Dts : s = Start(T, d)
        /\ rej = 0

Running == s.st = "run" /\ Abs(s.t) < Abs(T)
H == IF Clipped THEN Clip(s, T) ELSE s.dt

Evaluate  == Running /\ s.ph < Stages /\ s' = Eval(s) /\ UNCHANGED <<T, rej>>
Fault     == Running /\ s.ph < Stages /\ s' = Stop(s, "fault") /\ UNCHANGED <<T, rej>>
Interrupt == Running /\ s.ph < Stages /\ s' = Stop(s, "interrupt") /\ UNCHANGED <<T, rej>>
\* a small enough step is always acceptable: at most two rejections in a row
AcceptStep == /\ Running /\ s.ph = Stages
              /\ \E d \in Dts : s' = [s EXCEPT !.t = @ + H, !.path = Append(@, s.t + H), !.dt = d * Sgn(T), !.ph = 0]
              /\ rej' = 0 /\ UNCHANGED T
RejectStep == /\ Running /\ s.ph = Stages /\ rej < 2 /\ Abs(H) > 1
              /\ \E d \in Dts : d < Abs(H) /\ s' = Reject(s, T, d)
              /\ rej' = rej + 1 /\ UNCHANGED T
Finish     == s.st = "run" /\ Abs(s.t) >= Abs(T) /\ s' = Stop(s, "done") /\ UNCHANGED <<T, rej>>
Next == Evaluate \/ Fault \/ Interrupt \/ AcceptStep \/ RejectStep \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
NeverBeyond == \A i \in 1 .. Len(s.path) : Abs(s.path[i]) <= Abs(T) /\ Sgn(s.path[i]) \in {0, Sgn(T)}
Advances    == \A i \in 1 .. Len(s.path) - 1 : Abs(s.path[i + 1]) > Abs(s.path[i])
Exactly     == s.st = "done" => s.path[Len(s.path)] = T
StartKept   == s.path[1] = 0
Terminates  == <>(s.st # "run")
OnlyAcceptExtends == [][ s'.path # s.path => s.ph = Stages /\ s'.path = Append(s.path, s.path[Len(s.path)] + H) ]_vars
FailureKeepsPath  == [][ s'.st \in {"fault", "interrupt"} => s'.path = s.path ]_vars
=============================================================================
