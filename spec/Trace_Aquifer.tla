--------------------------- MODULE Trace_Aquifer ---------------------------
(***************************************************************************)
(* Validates recorded histories of one Model.  The trace has lna2 = ln a^2 *)
(* in Micro.  Events:                                                      *)
(*   set    reg, org, wells, H, pn (porosity in 1/20): the attributes now  *)
(*   pot, wonly   x, y, v (Micro), err                                     *)
(*   dis          x, y, vx, vy (Micro), err                                *)
(*   head   h, v (Micro units): the model was given the potential whose    *)
(*          head is h                                                      *)
(*   near   d, v: potential (1 + d 10^-9) times that of head = thickness;  *)
(*          the head is (1 + v 10^-9) thickness                            *)
(*   dry    at a potential <= 0: herr, verr (exceptions), cerr of the      *)
(*          confined shortcut                                              *)
(*   vel    h, x, y, vx, vy (Micro), velocity at a place with head h       *)
(*   velc   the same through the confined shortcut                         *)
(*   thin   r: velocity * porosity * min(head, thickness) / discharge,     *)
(*          at heads down to 10^-6 of the thickness                        *)
(*   super  all, parts (Micro): a potential or discharge component and its *)
(*          contributions, at arbitrary places                             *)
(*   ray    m, p1, p2: potential of a well at distance d and 2d; q1, q2,   *)
(*          c1: d . Q and d x Q (Micro)                                    *)
(*   across d, v: the same with potential (1 + d 10^-6)                    *)
(***************************************************************************)
EXTENDS Aquifer, TraceKit

AInit(t) == [reg |-> <<0,0,0,0,0,0>>, org |-> <<0,0>>, wells |-> <<>>, H |-> 1, pn |-> 1]
ANext(t, s, e) == IF e.op = "set"
                  THEN [reg |-> e.reg, org |-> e.org, wells |-> e.wells, H |-> e.H, pn |-> e.pn]
                  ELSE s

Mk(props, clause, cond) == IF cond THEN {} ELSE {<<q, clause>> : q \in props}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

AFail(t, s, e) ==
    CASE e.op = "set" -> {}
      [] e.op = "pot" ->
            Mk({"C13"}, "potential ended with " \o e.err, e.err = "")
       \cup Mk({"C13"}, "the potential is the regional quadratic plus the wells",
               Abs(e.v - (Regional(s.reg, s.org, e.x, e.y) * Micro + WellsPotential(s.wells, t.lna2, e.x, e.y)))
                  <= WellsSlack(s.wells, e.x, e.y))
      [] e.op = "wonly" ->
            Mk({"C13"}, "potential of the wells ended with " \o e.err, e.err = "")
       \cup Mk({"C13"}, "the contribution of the wells is theirs alone",
               Abs(e.v - WellsPotential(s.wells, t.lna2, e.x, e.y)) <= WellsSlack(s.wells, e.x, e.y))
      [] e.op = "dis" ->
            Mk({"C13"}, "discharge ended with " \o e.err, e.err = "")
       \cup Mk({"C13"}, "the discharge is minus the gradient of the potential",
               /\ Abs(e.vx - Discharge(s.reg, s.org, s.wells, 1, e.x, e.y)) <= Len(s.wells) + 2
               /\ Abs(e.vy - Discharge(s.reg, s.org, s.wells, 2, e.x, e.y)) <= Len(s.wells) + 2)
      [] e.op = "super" ->
            Mk({"C13"}, "the contributions add up: " \o e.what, Abs(e.all - SumSeq(e.parts)) <= Len(e.parts) + 1)
      [] e.op = "ray" ->
            Mk({"C13"}, "the potential of a well is Q/(4 pi) ln r^2", Abs(e.p2 - e.p1 - e.m * 1386294) <= Abs(e.m) + 3)
       \cup Mk({"C13"}, "the discharge of a well is radial and inversely proportional to the distance",
               /\ Abs(e.q1 + 2 * e.m * Micro) <= 3 /\ Abs(e.q2 + 2 * e.m * Micro) <= 3 /\ Abs(e.c1) <= 3)
      [] e.op = "head" ->
            Mk({"C14"}, "head of a wet place ended with " \o e.err, e.err = "")
       \cup Mk({"C14"}, "the head is the one whose potential is given", Abs(e.v - e.h * Micro) <= 2 + e.h \div 50)
      [] e.op = "near" ->
            Mk({"C14"}, "head of a wet place ended with " \o e.err, e.err = "")
       \cup Mk({"C14"}, "the head is continuous and increasing across the change to confined", Abs(2 * e.v - e.d) <= 8)
      [] e.op = "across" ->
            Mk({"C14"}, "head of a wet place ended with " \o e.err, e.err = "")
       \cup Mk({"C14"}, "the head is the one whose potential is given, on both sides of the change to confined",
               Abs(e.v - HeadAcross(e.d)) <= 12)
      [] e.op = "incr" ->
            Mk({"C14"}, "the head increases strictly with the potential", e.up)
      [] e.op = "dry" ->
            Mk({"C14"}, "the head of a dry place is refused with the aquifer error", e.herr = "AquiferError")
       \cup Mk({"C15"}, "the velocity of a dry place is refused with the aquifer error", e.verr = "AquiferError")
       \cup Mk({"C15"}, "the confined shortcut never refuses", e.cerr = "")
      [] e.op = "thin" ->
            Mk({"C15"}, "velocity of a wet place ended with " \o e.err, e.err = "")
       \cup Mk({"C15"}, "velocity times porosity times saturated thickness is the discharge",
               e.err = "" => Abs(e.r - Micro) <= 2)
      [] e.op \in {"vel", "velc"} ->
            LET sat == IF e.op = "velc" THEN s.H ELSE Saturated(e.h, s.H)
                f   == sat * s.pn
                tol == f + 30 * (Len(s.wells) + 2)
            IN
            Mk({"C15"}, "velocity of a wet place ended with " \o e.err, e.err = "")
       \cup IF e.err # "" THEN {} ELSE
            Mk({"C15"}, IF e.op = "vel" THEN "the velocity is the discharge over porosity and saturated thickness"
                                        ELSE "the confined velocity is the discharge over porosity and thickness",
               /\ Abs(e.vx * f - 20 * Discharge(s.reg, s.org, s.wells, 1, e.x, e.y)) <= tol
               /\ Abs(e.vy * f - 20 * Discharge(s.reg, s.org, s.wells, 2, e.x, e.y)) <= tol)
       \cup Mk({"C15"}, "the confined shortcut agrees where the aquifer is confined",
               (e.op = "vel" /\ e.h >= s.H) => (Abs(e.vx - e.cx) <= 1 /\ Abs(e.vy - e.cy) <= 1))
=============================================================================
