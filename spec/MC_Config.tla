----------------------------- MODULE MC_Config -----------------------------
(***************************************************************************)
(* The user changes one thing after another and calls the entry point in   *)
(* between; the entry point validates the arguments, filters, counts what  *)
(* is left, computes, archives.  Variant: "good", or a wrong order of work *)
(* or a forgotten check, that TLC must refute.                             *)
(***************************************************************************)
EXTENDS Config, TLC
CONSTANTS MaxDev, Variant

VARIABLES devs, phase, computed, archives
vars == <<devs, phase, computed, archives>>
cfg == With(devs)

Init == devs = {} /\ phase = "idle" /\ computed = FALSE /\ archives = 0

Deviate == /\ phase = "idle" /\ Cardinality(devs) < MaxDev
           /\ \E f \in Fields \ {d[1] : d \in devs} : \E v \in All(f) \ {Base[f]} :
                 devs' = devs \cup {<<f, v>>}
           /\ UNCHANGED <<phase, computed, archives>>
Call    == /\ phase = "idle" /\ phase' = "called" /\ computed' = FALSE /\ archives' = 0 /\ UNCHANGED devs
Checked == CASE Variant = "first only" -> ArgumentsValid(IF cfg["wpos"] = "last" THEN [cfg EXCEPT !["wdef"] = ""] ELSE cfg)
             [] OTHER -> ArgumentsValid(cfg)
Validate == /\ phase = "called" /\ phase' = (IF Checked THEN "valid" ELSE "rejected") /\ UNCHANGED <<devs, computed, archives>>
Filter  == /\ phase = "valid"
           /\ phase' = (IF EnoughLeft(cfg) \/ Variant = "count late" THEN "filtered" ELSE "rejected")
           /\ UNCHANGED <<devs, computed, archives>>
Compute == /\ phase = "filtered" /\ computed' = TRUE /\ phase' = "computed" /\ UNCHANGED <<devs, archives>>
Archive == /\ phase = "computed"
           /\ phase' = (IF EnoughLeft(cfg) THEN "done" ELSE "rejected")
           /\ archives' = (IF EnoughLeft(cfg) THEN 1 ELSE 0) /\ UNCHANGED <<devs, computed>>
Next == Deviate \/ Call \/ Validate \/ Filter \/ Compute \/ Archive
Spec == Init /\ [][Next]_vars /\ WF_vars(Call \/ Validate \/ Filter \/ Compute \/ Archive)

----------------------------------------------------------------------------
NothingComputedBeforeRejection == phase = "rejected" => ~computed /\ archives = 0
RejectedExactlyIfInvalid == /\ phase = "rejected" => ~Accept(cfg)
                            /\ phase = "done" => Accept(cfg) /\ computed /\ archives = 1
ArchiveOnlyAtEnd == archives > 0 => phase = "done"
\* one bad argument is enough, whatever the others are
OneBadIsEnough == (\E f \in Fields : cfg[f] \in Bad(f)) => ~Accept(cfg)
BaseAccepted == Accept(Base)
KindsDisjoint == devs = {} /\ phase = "idle" => \A f \in Fields : Good(f) \cap Bad(f) = {} /\ Base[f] \in Good(f)
Ends == <>(phase \in {"rejected", "done"})
=============================================================================
