------------------------------ MODULE Transport ------------------------------
(* Transport coefficients of a set of tracked ions, as exact rationals.      *)
(*   d     sequence of displacement vectors (Angstrom)   h  hops per ion     *)
(*   dim   dimensionality     a   elementary hop distance (Angstrom)         *)
(*   v     cell volume        q   charge     t  temperature  (unit choice)   *)
(*   tn/td elapsed time since tracking began                                 *)
(* A value is <<p, q>> in lowest terms with q > 0, or NaN.                   *)
EXTENDS Integers, Sequences

NaN == <<0, 0>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Frac(p, q) ==
  IF p = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(Abs(p), Abs(q)) IN
       IF q < 0 THEN <<-(p \div g), (-q) \div g>> ELSE <<p \div g, q \div g>>
\* reduce crosswise before multiplying, to stay within TLC's integers
FMul(x, y) ==
  IF x = NaN \/ y = NaN THEN NaN
  ELSE LET u == Frac(x[1], y[2])  w == Frac(y[1], x[2]) IN Frac(u[1] * w[1], u[2] * w[2])
FDiv(x, y) == IF x = NaN \/ y = NaN \/ y[1] = 0 THEN NaN ELSE FMul(x, <<y[2], y[1]>>)
FAdd(x, y) ==
  LET g == Gcd(x[2], y[2]) IN Frac(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))

Sq(v) == v[1]*v[1] + v[2]*v[2] + v[3]*v[3]
RECURSIVE SumSq(_, _)
SumSq(d, n) == IF n = 0 THEN 0 ELSE Sq(d[n]) + SumSq(d, n - 1)
RECURSIVE SumVec(_, _)
SumVec(d, n) == IF n = 0 THEN <<0, 0, 0>> ELSE
  LET s == SumVec(d, n - 1) IN <<s[1] + d[n][1], s[2] + d[n][2], s[3] + d[n][3]>>

N(x) == Len(x.d)
Timed(x) == x.tn > 0 /\ N(x) > 0

Msd(x) == IF N(x) = 0 THEN NaN ELSE Frac(SumSq(x.d, N(x)), N(x))
\* collective (jump) and tracer diffusivity
DJ(x) == IF ~Timed(x) THEN NaN ELSE
  FMul(Frac(Sq(SumVec(x.d, N(x))), 2 * x.dim * N(x)), <<x.td, x.tn>>)
DT(x) == IF ~Timed(x) THEN NaN ELSE
  FMul(FMul(Msd(x), Frac(1, 2 * x.dim)), <<x.td, x.tn>>)
\* Nernst-Einstein: carriers per volume, charge squared, over temperature
Sigma(x) == FMul(FMul(DJ(x), Frac(N(x) * x.q * x.q, x.v)), Frac(1, x.t))
Haven(x) == FDiv(DT(x), DJ(x))
IonFactor(x, i) == IF x.h[i] = 0 THEN <<0, 1>> ELSE FMul(Frac(Sq(x.d[i]), x.h[i]), Frac(1, x.a * x.a))
RECURSIVE FactorSum(_, _)
FactorSum(x, n) == IF n = 0 THEN <<0, 1>> ELSE FAdd(IonFactor(x, n), FactorSum(x, n - 1))
Corr(x) == IF N(x) = 0 THEN NaN ELSE FMul(FactorSum(x, N(x)), Frac(1, N(x)))

Value(x, f) ==
  CASE f = "msd" -> Msd(x)
    [] f = "jump_diffusivity" -> DJ(x)
    [] f = "tracer_diffusivity" -> DT(x)
    [] f = "conductivity" -> Sigma(x)
    [] f = "havens_ratio" -> Haven(x)
    [] f = "correlation_factor" -> Corr(x)
Fields == {"msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"}
=============================================================================
