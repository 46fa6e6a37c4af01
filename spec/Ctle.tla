-------------------------------- MODULE Ctle ---------------------------------
(* Continuous-time linear equalizer by the bilinear transform.  A root at      *)
(* frequency w (either sign) is the factor 1 + s/|w|; with s = 2F(1-v)/(1+v),  *)
(* v one sample of delay and c = 2F/|w|, it becomes ((1+c) + (1-c) v)/(1+v).   *)
(* Roots are given by c (positive integers); polynomials are coefficient       *)
(* sequences in powers of v, lowest first.                                     *)
EXTENDS Streams
PMul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
                 Sum([i \in 1..Len(p) |-> IF k - i + 1 \in 1..Len(q) THEN p[i] * q[k - i + 1] ELSE 0])]
Factor(c) == <<1 + c, 1 - c>>
Roots(cs) == FoldLeft(LAMBDA p, c : Force(PMul(p, Factor(c))), <<1>>, cs)
Nyq(n) == FoldLeft(LAMBDA p, i : Force(PMul(p, <<1, 1>>)), <<1>>, Iota(n))
(* integer numerator (unit DC gain) and denominator, degree = number of poles, for Len(zs) <= Len(ps) *)
NumOf(zs, ps) == Force(PMul(Roots(zs), Nyq(Len(ps) - Len(zs))))
DenOf(ps) == Roots(ps)
(* 10^(k/20), k = -6..6, times 10^4 *)
Db20 == <<5012, 5623, 6310, 7079, 7943, 8913, 10000, 11220, 12589, 14125, 15849, 17783, 19953>>
Gain(dc) == Db20[dc + 7]
CtleInit(cfg) == IF cfg.kind = "filt" THEN [xs |-> Zeros(Len(cfg.b)), ys |-> Zeros(Len(cfg.a) - 1)] ELSE [x |-> 0]
CtleApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, "the call raised " \o ev.exc)
  ELSE CASE ev.op = "coef" ->
         LET A == DenOf(ev.ps)
             B == NumOf(ev.zs, ev.ps)
             n == Len(A)
         IN  IF Len(ev.a) # n \/ Len(ev.b) # n THEN Bad(st, "the filter does not have the order of its poles")
             ELSE IF ~ \A i \in 1..n : Abs(ev.a[i]) <= 35000 /\ Abs(ev.b[i]) <= 1900000000 \div Max2(1, A[1] \div cfg.q) THEN Bad(st, "a coefficient is out of range")
             ELSE Bad(st, First(<<
               <<ev.a[1] = 10000, "the leading coefficient is not 1">>,
               <<\A i \in 1..n : Abs(ev.a[i] * A[1] - 10000 * A[i]) <= A[1], "the poles are not the bilinear transform of the requested ones">>,
               <<\A i \in 1..n : Abs(ev.b[i] * (A[1] \div cfg.q) - Gain(ev.dc) * (B[i] \div cfg.q)) <= 2 * ((A[1] + Abs(B[i])) \div cfg.q) + (IF cfg.q = 1 THEN 0 ELSE 40000 + Abs(ev.b[i])), "the zeros are not the bilinear transform of the requested ones">>,
               <<Abs(Sum(ev.b)) <= 100000 => Abs(Sum(ev.b) * 10000 - Gain(ev.dc) * Sum(ev.a)) <= n * (10000 + Gain(ev.dc)), "the gain at DC is not the requested one">>,
               <<Abs(Sum(ev.b)) <= 100000, "the gain at DC is not the requested one">> >>))
       [] ev.op = "chunk" -> StreamApply(cfg, st, ev)
       [] ev.op = "settle" ->  \* step response: ends at the gain (unit 10^-4), and stays there
         Bad(st, First(<< <<\A i \in 1..Len(ev.tail) : Abs(ev.tail[i] - Gain(ev.dc)) <= 3, "the step response does not settle at the DC gain">> >>))
       [] OTHER -> Bad(st, "unknown event")
==============================================================================
