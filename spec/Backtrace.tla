----------------------------- MODULE Backtrace -----------------------------
(***************************************************************************)
(* One particle trace (capturezone.compute_backtrace).                     *)
(*                                                                         *)
(* Two views of it.  (1) The control of the integrator: a clock that is    *)
(* advanced by accepted steps, a step size that is cut at the end of the   *)
(* requested duration, evaluations of the velocity that may fail or be     *)
(* interrupted.  MC_Backtrace explores all of its behaviours.              *)
(* (2) The laws of motion of velocity fields whose exact trajectories are  *)
(* integer laws in a normalized frame (fixed point, S = 1.0).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(a)     == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(a)     == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
MaxOf(X)   == CHOOSE m \in X : \A n \in X : m >= n
MinOf(X)   == CHOOSE m \in X : \A n \in X : m <= n

----------------------------------------------------------------------------
(* Control.  T is the requested duration (either sign), the state is       *)
(*   t      clock          dt    next step (sign of T)                     *)
(*   path   clock values of the completed vertices                         *)
(*   ph     evaluations made in the attempt in progress (0 .. Stages)      *)
(*   ne     velocity evaluations made so far                               *)
(*   st     "run", "done", "fault", "interrupt"                            *)

Stages == 6

Start(T, dt0) == [t |-> 0, dt |-> dt0 * Sgn(T), path |-> <<0>>, ph |-> -1, ne |-> 0, st |-> "run"]

Clip(s, T) == IF Abs(s.t + s.dt) > Abs(T) THEN T - s.t ELSE s.dt

\* one successful evaluation of the velocity; ph = -1 is the one at the start
Eval(s) == [s EXCEPT !.ph = @ + 1, !.ne = @ + 1]

Accept(s, T, newdt) ==
    LET h == Clip(s, T) IN
    [s EXCEPT !.t = @ + h, !.path = Append(@, s.t + h), !.dt = newdt * Sgn(T), !.ph = 0]
Reject(s, T, newdt) == [s EXCEPT !.dt = newdt * Sgn(T), !.ph = 0]
Stop(s, why)     == [s EXCEPT !.st = why]

----------------------------------------------------------------------------
(* The part completed before the k-th evaluation failed.  el is the        *)
(* evaluation log of the same trace without the failure: el[j] is the      *)
(* vertex (1 = start) at which evaluation j took place, 0 if at a point    *)
(* that is not a vertex.  A vertex is not complete before the velocity at  *)
(* it is known, and it is complete once tracing has moved on from it.      *)

(* (An evaluation at the place of a later vertex may also be part of a      *)
(* rejected attempt: only those made after the vertex before it count.)    *)
RECURSIVE Enter(_, _)
Enter(el, i) ==
    IF i = 1 THEN 1
    ELSE LET b  == Enter(el, i - 1)
             js == {j \in (b + 1) .. Len(el) : el[j] = i}
         IN  IF b = 0 \/ js = {} THEN 0 ELSE MinOf(js)
Leave(el, i) == LET f == Enter(el, i)
                    after == {j \in f .. Len(el) : el[j] # i}
                IN  IF after = {} THEN Len(el) ELSE MinOf(after) - 1

\* for every vertex, the evaluations at which it is entered and left
Visits(el, n) == [i \in 2 .. n |-> LET f == Enter(el, i) IN <<f, IF f = 0 THEN 0 ELSE Leave(el, i)>>]

CompletedAtLeast(v, n, k) == MaxOf({1} \cup {i \in 2 .. n : v[i][1] > 0 /\ v[i][2] < k})
CompletedAtMost(v, n, k)  == MaxOf({1} \cup {i \in 2 .. n : v[i][1] > 0 /\ v[i][1] < k})

IsPrefix(ids, lo, hi) ==
    /\ Len(ids) >= lo /\ Len(ids) <= hi
    /\ \A i \in 1 .. Len(ids) : ids[i] = i

----------------------------------------------------------------------------
(* Exact trajectories, in fixed point with S = 1.0; every coordinate of a  *)
(* trace lies in -S .. S.                                                  *)

S == 30000
Mul(a, b) == (a * b) \div S
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN S ELSE Mul(Pow(a, n - 1), a)

\* y displacement of a particle in the flow (1, p'(x)) after it moved by u
Poly(c, u) == Mul(c[1], u) + Mul(c[2], Pow(u, 2)) + Mul(c[3], Pow(u, 3)) + Mul(c[4], Pow(u, 4))

\* the flow (1, 3 g max(0, x - b)^2): nothing happens before x = b
Burst(g, b, x) == IF x <= b THEN 0 ELSE Mul(g, Pow(x - b, 3))

Quarter(p) == <<-p[2], p[1]>>
RECURSIVE Quarters(_, _)
Quarters(p, n) == IF n = 0 THEN p
                  ELSE IF n > 0 THEN Quarters(Quarter(p), n - 1)
                  ELSE Quarters(<<p[2], -p[1]>>, n + 1)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* L = [kind, start, ...]: distance of the point p from the trajectory, in  *)
(* units of 1/S, as a bound check OnPath(L, p, e): no farther than about e. *)
OnPath(L, p, e) ==
    CASE L.kind = "poly"  -> Abs(p[2] - L.start[2] - Poly(L.c, p[1] - L.start[1])) <= e
      [] L.kind = "burst" -> Abs(p[2] - L.start[2] - Burst(L.g, L.b, p[1])) <= e
      [] L.kind = "rot"   -> LET R2 == L.start[1]*L.start[1] + L.start[2]*L.start[2]
                             IN  Abs(p[1]*p[1] + p[2]*p[2] - R2) <= 2 * S * e
      [] L.kind = "hyper" -> Abs(Mul(p[1], p[2]) - Mul(L.start[1], L.start[2])) <= e
      [] L.kind = "radial" -> \* start on the positive x axis or a Pythagorean direction
                             Abs(Mul(p[1], L.start[2]) - Mul(p[2], L.start[1])) <= e
      [] L.kind = "zero"  -> p = L.start
      [] L.kind = "accept" -> TRUE

\* position after the requested duration
AtEnd(L, p, e) ==
    CASE L.kind \in {"poly", "burst"} -> Abs(p[1] - L.start[1] - L.T) <= e
      [] L.kind = "rot"    -> LET z == Quarters(L.start, L.T)
                              IN  Abs(p[1] - z[1]) <= e /\ Abs(p[2] - z[2]) <= e
      [] L.kind = "hyper"  -> IF L.T >= 0
                              THEN Abs(p[1] - L.start[1] * Pow2(L.T)) <= e /\ Abs(p[2] * Pow2(L.T) - L.start[2]) <= e * Pow2(L.T)
                              ELSE Abs(p[2] - L.start[2] * Pow2(-L.T)) <= e /\ Abs(p[1] * Pow2(-L.T) - L.start[1]) <= e * Pow2(-L.T)
      [] L.kind = "radial" -> \* r^2 = r0^2 + 2 c T
                              Abs(Mul(p[1], p[1]) + Mul(p[2], p[2])
                                  - Mul(L.start[1], L.start[1]) - Mul(L.start[2], L.start[2]) - L.T) <= 2 * e + 4
      [] L.kind = "zero"   -> p = L.start
      [] L.kind = "accept" -> Abs(p[1] - L.start[1] - L.T) <= e

(* The embedded error estimate of a Dormand-Prince step of length h in the *)
(* flow (1, A x^4) is A |sum e_i c_i^4| h^5 = A (71/270000) h^5 for every   *)
(* position.  With rho = A H^5 / tol, a step of g/S * H may be accepted     *)
(* only if (g/S)^5 rho 71/270000 < 1.                                       *)
MayAccept(g, rho) == Pow(g, 5) <= (S * 3803) \div rho + 4
=============================================================================
