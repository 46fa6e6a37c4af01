-------------------------------- MODULE Trig ---------------------------------
(* Fixed-point trigonometry of rational multiples of pi, so that closed forms  *)
(* over the reals can be evaluated by TLC.  Values are in units 1/TS; argument *)
(* reduction is exact (on the rationals), the series error is a few units.     *)
EXTENDS Base
TS == 40000
(* pi * n / d in units 1/TS, 0 <= n/d <= 1/4 *)
PiFrac(n, d) == (((n * 400000) \div d) * 355) \div 1130
SinSmall(x) == LET x2 == (x * x) \div TS
                   t3 == (x * x2) \div TS  t5 == (t3 * x2) \div TS  t7 == (t5 * x2) \div TS
               IN  x - t3 \div 6 + t5 \div 120 - t7 \div 5040
CosSmall(x) == LET x2 == (x * x) \div TS
                   t4 == (x2 * x2) \div TS  t6 == (t4 * x2) \div TS
               IN  TS - x2 \div 2 + t4 \div 24 - t6 \div 720
(* sin(pi p / q), q > 0 *)
SinPi(p, q) ==
  LET r0 == p % (2 * q)
      neg == r0 >= q
      r1 == IF neg THEN r0 - q ELSE r0
      r2 == IF 2 * r1 > q THEN q - r1 ELSE r1
      v == IF 4 * r2 > q THEN CosSmall(PiFrac(q - 2 * r2, 2 * q)) ELSE SinSmall(PiFrac(r2, q))
  IN  IF neg THEN -v ELSE v
CosPi(p, q) == SinPi(q + 2 * p, 2 * q)
(* truncation towards zero, so that -x / y = -(x / y) *)
DivT(a, b) == IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
(* sinc(p/q) = sin(pi p/q) / (pi p/q) *)
SincR(p, q) == IF p = 0 THEN TS ELSE DivT(SinPi(p, q) * q * 113, 355 * p)
(* the same for |p/q| <= 1/5, by its series *)
SincS(p, q) == LET r == DivT(Abs(p) * TS, q)  z2 == (((r * r) \div TS) * 9870) \div 1000 IN
  TS - z2 \div 6 + ((z2 * z2) \div TS) \div 120
(* x * A / B with A > 0, |B| >= A / 10, kept inside 32 bits *)
Ratio(x, A, B) == LET k == Max2(1, CeilDiv(Max2(A, Abs(B)), 30000)) IN DivT(x * DivT(A, k), DivT(B, k))
==============================================================================
