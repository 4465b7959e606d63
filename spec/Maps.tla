-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* Pictures as functions from places to what is drawn there.               *)
(*                                                                         *)
(* A raster is a sequence of rows (bottom to top) of values.               *)
(* Blur is the Gaussian smoothing of a raster with nothing outside, for    *)
(* standard deviations of 1/2, 1 and 2 cells; the kernel reaches four      *)
(* standard deviations and sums to one.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* exp(-j^2 / 2 sigma^2) in 10^-6, j = 0, 1, ...; sd in halves of a cell
Kernel(sd) ==
    CASE sd = 1 -> <<1000000, 135335, 335>>
      [] sd = 2 -> <<1000000, 606531, 135335, 11109, 335>>
      [] sd = 4 -> <<1000000, 882497, 606531, 324652, 135335, 43937, 11109, 2187, 335>>
Reach(sd) == Len(Kernel(sd)) - 1
AbsM(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumF(_, _, _)
SumF(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumF(f, a + 1, b)
Weight(sd) == LET K == Kernel(sd) IN K[1] + 2 * SumF(K, 2, Len(K))
RoundDiv(a, b) == (a + b \div 2) \div b

\* one dimension: values v (up to 40), result in 10^-3
Blur1(v, sd) ==
    LET K == Kernel(sd)  r == Reach(sd)  W == Weight(sd) \div 1000 IN
    [i \in 1 .. Len(v) |->
        LET lo == IF i - r < 1 THEN 1 ELSE i - r
            hi == IF i + r > Len(v) THEN Len(v) ELSE i + r
        IN  RoundDiv(SumF([j \in lo .. hi |-> v[j] * K[AbsM(i - j) + 1]], lo, hi), W)]
\* again, for values in 10^-3 (up to 4 10^4)
Blur2(v, sd) ==
    LET K == Kernel(sd)  r == Reach(sd)  W == Weight(sd) \div 100 IN
    [i \in 1 .. Len(v) |->
        LET lo == IF i - r < 1 THEN 1 ELSE i - r
            hi == IF i + r > Len(v) THEN Len(v) ELSE i + r
        IN  RoundDiv(SumF([j \in lo .. hi |-> v[j] * (K[AbsM(i - j) + 1] \div 100)], lo, hi), W)]

Transpose(m) == [j \in 1 .. Len(m[1]) |-> [i \in 1 .. Len(m) |-> m[i][j]]]
Blur(m, sd) == LET a == TLCEval([i \in 1 .. Len(m) |-> TLCEval(Blur1(m[i], sd))])
                   b == TLCEval(Transpose(a))
               IN  TLCEval(Transpose(TLCEval([j \in 1 .. Len(b) |-> TLCEval(Blur2(b[j], sd))])))
Thousand(m) == [i \in 1 .. Len(m) |-> [j \in 1 .. Len(m[i]) |-> 1000 * m[i][j]]]
\* what the probability map draws, in 10^-3 of weight
Surface(m, sd) == IF sd = 0 THEN Thousand(m) ELSE Blur(m, sd)

\* the places of a raster: corner + index * step
Places(x0, dx, n) == [j \in 1 .. n |-> x0 + (j - 1) * dx]
=============================================================================
