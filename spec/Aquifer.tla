------------------------------ MODULE Aquifer ------------------------------
(***************************************************************************)
(* The aquifer model (model.Model): discharge potential, discharge vector, *)
(* head and seepage velocity.                                              *)
(*                                                                         *)
(* Locations are integer multiples <<i, j>> of a length a; potentials are  *)
(* multiples of a scale s.  With coefficients A = s*al/a^2, D = s*de/a ... *)
(* and discharges Q = 4*pi*s*m,                                            *)
(*    potential / s      = al i^2 + be j^2 + ga i j + de i + ep j + ph     *)
(*                         + sum of m (ln a^2 + ln n)                      *)
(*    discharge_x * a/s  = -(2 al i + ga j + de) - sum of 2 m i / n        *)
(* (i, j relative to the origin, resp. the well; n = i^2 + j^2), which are *)
(* integers and logarithms of integers.  Micro = 10^-6.                    *)
(* Heads, with P = 2 * potential / conductivity in units^2:                *)
(*    P = h^2 (h <= H, unconfined),  P = 2 H h - H^2 (h >= H, confined).   *)
(***************************************************************************)
EXTENDS Lattice, TLC

Micro == 1000000

Primes ==
    <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67,
    71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149,
    151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229,
    233, 239, 241, 251>>
\* natural logarithms of the primes in 10^-6
LnPrimes ==
    <<693147, 1098612, 1609438, 1945910, 2397895, 2564949, 2833213, 2944439,
    3135494, 3367296, 3433987, 3610918, 3713572, 3761200, 3850148, 3970292,
    4077537, 4110874, 4204693, 4262680, 4290459, 4369448, 4418841, 4488636,
    4574711, 4615121, 4634729, 4672829, 4691348, 4727388, 4844187, 4875197,
    4919981, 4934474, 5003946, 5017280, 5056246, 5093750, 5117994, 5153292,
    5187386, 5198497, 5252273, 5262690, 5283204, 5293305, 5351858, 5407172,
    5424950, 5433722, 5451038, 5476464, 5484797, 5525453>>

RECURSIVE LnFrom(_, _)
LnFrom(n, k) == IF n = 1 THEN 0
                ELSE IF n % Primes[k] = 0 THEN LnPrimes[k] + LnFrom(n \div Primes[k], k)
                ELSE LnFrom(n, k + 1)
Ln(n) == LnFrom(n, 1)
RECURSIVE OmegaFrom(_, _)
OmegaFrom(n, k) == IF n = 1 THEN 0
                   ELSE IF n % Primes[k] = 0 THEN 1 + OmegaFrom(n \div Primes[k], k)
                   ELSE OmegaFrom(n, k + 1)
Omega(n) == OmegaFrom(n, 1)

----------------------------------------------------------------------------
(* reg = <<al, be, ga, de, ep, ph>>, org = <<oi, oj>>,                      *)
(* wells = sequence of <<i, j, m>>.                                        *)

Regional(reg, org, x, y) ==
    LET i == x - org[1]  j == y - org[2]
    IN  reg[1]*i*i + reg[2]*j*j + reg[3]*i*j + reg[4]*i + reg[5]*j + reg[6]

R2(w, x, y) == (x - w[1])*(x - w[1]) + (y - w[2])*(y - w[2])

RECURSIVE WellsPotential(_, _, _, _)
\* in Micro; lna2 = ln a^2 in Micro
WellsPotential(wells, lna2, x, y) ==
    IF wells = <<>> THEN 0
    ELSE wells[1][3] * (lna2 + Ln(R2(wells[1], x, y))) + WellsPotential(Tail(wells), lna2, x, y)
\* how exactly the specification knows it
RECURSIVE WellsSlack(_, _, _)
WellsSlack(wells, x, y) ==
    IF wells = <<>> THEN 2
    ELSE Abs(wells[1][3]) * ((Omega(R2(wells[1], x, y)) \div 2) + 5) + WellsSlack(Tail(wells), x, y)

RegionalDischarge(reg, org, x, y) ==
    LET i == x - org[1]  j == y - org[2]
    IN  <<-(2*reg[1]*i + reg[3]*j + reg[4]), -(2*reg[2]*j + reg[3]*i + reg[5])>>

RECURSIVE WellsDischarge(_, _, _, _)
\* component c (1: x, 2: y) in Micro, rounded down once per well
WellsDischarge(wells, c, x, y) ==
    IF wells = <<>> THEN 0
    ELSE LET w == wells[1]
             d == IF c = 1 THEN x - w[1] ELSE y - w[2]
         IN  (-(2 * w[3] * d * Micro)) \div R2(w, x, y) + WellsDischarge(Tail(wells), c, x, y)

Discharge(reg, org, wells, c, x, y) ==
    RegionalDischarge(reg, org, x, y)[c] * Micro + WellsDischarge(wells, c, x, y)

----------------------------------------------------------------------------
PotentialOfHead(h, H) == IF h <= H THEN h * h ELSE 2 * H * h - H * H
Saturated(h, H) == IF h <= H THEN h ELSE H
Wet(P) == P > 0
\* h/H - 1 in 10^-9 for P = H^2 (1 + d 10^-6), |d| <= 20000: linear when confined, the
\* square root (to third order) when not
HeadAcross(d) == IF d >= 0 THEN 500 * d
                 ELSE 500 * d - (d * d) \div 8000 + (((d * d) \div 10000) * d) \div 1600000
=============================================================================
