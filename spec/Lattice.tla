------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Exact integer geometry: everything is in integer ticks, so the          *)
(* specification never rounds.  Keep coordinates below about 200 ticks     *)
(* (TLC integers have 32 bits and TLC reports an overflow as an error).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
MinOf(S)   == CHOOSE m \in S : \A n \in S : m <= n
MaxOf(S)   == CHOOSE m \in S : \A n \in S : m >= n
CeilDiv(a, b) == -((-a) \div b)

RECURSIVE IsPow4(_)
IsPow4(n) == n = 1 \/ (n > 1 /\ n % 4 = 0 /\ IsPow4(n \div 4))

\* p*p < q without overflow, for q < 2^31
SqLess(p, q) == Abs(p) <= 46340 /\ p * p < q
SqEq(p, q)   == Abs(p) <= 46340 /\ p * p = q

(***************************************************************************)
(* Position of point c relative to the set of points closer than u to the  *)
(* segment a-b: "in" (distance < u), "out" (distance > u), "tie" (exactly  *)
(* u, and the floating-point evaluation need not be exact) -- an exact tie *)
(* that is evaluated exactly by any sensible formula is "out".             *)
(***************************************************************************)
Side(isless, iseq, exact) ==
    IF isless THEN "in" ELSE IF ~iseq THEN "out" ELSE IF exact THEN "out" ELSE "tie"

SegSide(ax, ay, bx, by, cx, cy, u, exact) ==
    LET bax == bx - ax   bay == by - ay
        cax == cx - ax   cay == cy - ay
        cbx == cx - bx   cby == cy - by
        L2  == bax*bax + bay*bay
        dot == bax*cax + bay*cay
        u2  == u*u
        ex  == exact /\ (L2 = 0 \/ (IsPow4(L2) /\ (bax = 0 \/ bay = 0)))
    IN  IF L2 = 0 \/ dot <= 0
        THEN LET d2 == cax*cax + cay*cay IN Side(d2 < u2, d2 = u2, ex)
        ELSE IF dot >= L2
        THEN LET d2 == cbx*cbx + cby*cby IN Side(d2 < u2, d2 = u2, ex)
        ELSE LET p == bax*cay - bay*cax IN Side(SqLess(p, u2*L2), SqEq(p, u2*L2), ex)

\* all lattice coordinates ref + k*d strictly between lo and hi
Grid1(ref, d, lo, hi) ==
    LET k0 == ((lo - ref) \div d) + 1
        k1 == CeilDiv(hi - ref, d) - 1
    IN  {ref + k*d : k \in k0 .. k1}

\* all lattice coordinates ref + k*d with lo <= . <= hi
Grid1c(ref, d, lo, hi) ==
    LET k0 == CeilDiv(lo - ref, d)
        k1 == (hi - ref) \div d
    IN  {ref + k*d : k \in k0 .. k1}
=============================================================================
