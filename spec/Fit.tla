-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Weighted least squares fit of the regional flow (Model.fit_regional_flow)*)
(* in the normalized units of Aquifer: potentials in multiples of          *)
(* conductivity*unit^2/2, so that an observation of head h (above the base, *)
(* in units) with standard deviation s has, by first-order second-moment,  *)
(*     expectation  h^2 + s^2      (h < H)   2 H h - H^2   (h > H)         *)
(*     deviation    2 h s          (h < H)   2 H s         (h > H)         *)
(* Tau is half the deviation; weights are (L / Tau)^2.                     *)
(***************************************************************************)
EXTENDS Lattice

PotEv(h, s, H) == IF h < H THEN h * h + s * s ELSE 2 * H * h - H * H
Tau(h, s, H)   == (IF h < H THEN h ELSE H) * s
Weight(h, s, H, L) == (L \div Tau(h, s, H)) * (L \div Tau(h, s, H))

Regressors(i, j) == <<i*i, j*j, i*j, i, j, 1>>

RECURSIVE DotSeq(_, _)
DotSeq(a, c) == IF a = <<>> THEN 0 ELSE a[1] * c[1] + DotSeq(Tail(a), Tail(c))

RECURSIVE SumOver(_, _)
\* sum of f[i], i \in 1 .. n
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)

(* The estimate c minimizes the sum of w r^2 iff it satisfies the normal    *)
(* equations: for every parameter k the sum of w r a_k vanishes.            *)
Moment(A, w, r, k) == SumOver([i \in 1 .. Len(A) |-> w[i] * r[i] * A[i][k]], Len(A))
MomentScale(A, w, k) == SumOver([i \in 1 .. Len(A) |-> w[i] * Abs(A[i][k])], Len(A))
Objective(w, r) == SumOver([i \in 1 .. Len(w) |-> w[i] * r[i] * r[i]], Len(w))

(* One observation k among others of equal weight.  If its deviation is     *)
(* negligible, the estimate passes through it and the other residuals are   *)
(* balanced about it; if its deviation is immense, it has no influence.     *)
HeavyMoment(A, r, k, j) == SumOver([i \in 1 .. Len(A) |-> (A[i][j] - A[k][j]) * r[i]], Len(A))
HeavyScale(A, k, j)     == SumOver([i \in 1 .. Len(A) |-> Abs(A[i][j] - A[k][j])], Len(A))
LightMoment(A, r, k, j) == SumOver([i \in 1 .. Len(A) |-> IF i = k THEN 0 ELSE A[i][j] * r[i]], Len(A))
LightScale(A, k, j)     == SumOver([i \in 1 .. Len(A) |-> IF i = k THEN 0 ELSE Abs(A[i][j])], Len(A))

\* the normal matrix, whose inverse is the covariance
Normal(A, w, k, m) == SumOver([i \in 1 .. Len(A) |-> w[i] * A[i][k] * A[i][m]], Len(A))
=============================================================================
