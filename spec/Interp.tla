------------------------------- MODULE Interp --------------------------------
(* Fractional-delay interpolation.  Window indices of order n around sample 0. *)
EXTENDS Pulse
Lo(n, fwd) == IF n % 2 = 0 \/ fwd = 1 THEN -(n \div 2) ELSE -(n \div 2) - 1
Window(n, fwd) == [i \in 1..(n + 1) |-> Lo(n, fwd) + i - 1]
(* the Lagrange weight of window position i at a/q, as an exact fraction *)
LagNum(w, i, a, q) == FoldLeft(LAMBDA acc, j : IF j = i THEN acc ELSE acc * (a - w[j] * q), 1, Iota(Len(w)))
LagDen(w, i, q) == FoldLeft(LAMBDA acc, j : IF j = i THEN acc ELSE acc * (w[i] - w[j]) * q, 1, Iota(Len(w)))
(* ... and in units 1/TS, staying inside 32 bits *)
LagVal(w, i, a, q) == FoldLeft(LAMBDA acc, j : IF j = i THEN acc ELSE DivT(acc * (a - w[j] * q), (w[i] - w[j]) * q), TS, Iota(Len(w)))
(* ... for high orders: the weight of the current sample, then neighbour by neighbour outwards
   (h(k+1) / h(k) = -((x - k) (hi - k)) / ((x - k - 1) (k + 1 - lo)) on the window lo..hi, and its mirror image) *)
LagFar(w, i, a, q) ==
  LET lo == w[1]
      hi == w[Len(w)]
      c == 1 - lo
      h0 == LagVal(w, c, a, q)
  IN  IF i >= c THEN FoldLeft(LAMBDA acc, k : -DivT(acc * ((a - (k - 1) * q) * (hi - k + 1)), (a - k * q) * (k - lo)), h0, Iota(i - c))
      ELSE FoldLeft(LAMBDA acc, k : -DivT(acc * ((a + (k - 1) * q) * (1 - k - lo)), (a + k * q) * (hi + k)), h0, Iota(c - i))
LagOrder == 7
LagAny(w, i, a, q) == IF Len(w) <= LagOrder + 1 THEN LagVal(w, i, a, q) ELSE LagFar(w, i, a, q)
(* weight of window position i for a delay a/q; roll-off u/v *)
Weight(method, w, i, a, q, u, v) ==
  CASE method = "lagrange" -> LagAny(w, i, a, q)
    [] method = "sinc" -> SincR(w[i] * q - a, q)
    [] method = "rcos" -> RcosVal(q, u, v, w[i] * q - a)
TrimPre(n) == n \div 2
TrimPost(n) == n - n \div 2
OutLen(n, order, osr) == (n - order) * osr
(* polynomial c[1] + c[2] x + ... at x = p / q, times q^(Len(c)-1) *)
PolyQ(c, p, q) == FoldLeft(LAMBDA acc, k : acc * p + c[k] * q ^ (Len(c) - k), 0, Rev(Iota(Len(c))))
ITol == 80
TolOf(method, n) == IF method = "lagrange" /\ n > LagOrder THEN 5 * ITol ELSE ITol

InterpInit(cfg) == [x |-> 0]
InterpApply(cfg, st, ev) ==
  IF ev.op = "refuse" THEN Bad(st, IF ev.exc # "" THEN "" ELSE "an unknown method was accepted")
  ELSE IF ev.exc # "" THEN Bad(st, ev.op \o " raised " \o ev.exc)
  ELSE CASE ev.op = "coef" ->       \* h in units 1/TS
         LET w == Force(Window(ev.n, ev.fwd)) IN
         Bad(st, First(<<
           <<Len(ev.h) = ev.n + 1, "wrong number of coefficients">>,
           <<Len(ev.h) # ev.n + 1 \/ ev.a # 0 \/ \A i \in 1..Len(w) : ev.h[i] = (IF w[i] = 0 THEN TS ELSE 0), "a zero delay does not select the current sample">>,
           <<ev.method # "lagrange" \/ Abs(Sum(ev.h) - TS) <= ev.n + 1, "the Lagrange coefficients do not sum to one">>,
           <<Len(ev.h) # ev.n + 1 \/ \A i \in 1..Len(w) :
               Abs(ev.h[i] - Weight(ev.method, w, i, ev.a, ev.q, ev.u, ev.v)) <= TolOf(ev.method, ev.n) + Abs(ev.h[i]) \div 500, "a coefficient differs from its closed form">> >>))
       [] ev.op = "over" ->         \* x integers; y in units 1/TS; t2, t1 axes in units 1/osr
         LET n == OutLen(Len(ev.x), ev.n, ev.osr)
             w == Force(Window(ev.n, 1))
             pre == TrimPre(ev.n)
             wt == Force([a \in 1..ev.osr |-> Force([i \in 1..Len(w) |-> Weight(ev.method, w, i, a - 1, ev.osr, ev.u, ev.v)])])
             at(m, a) == Sum([i \in 1..Len(w) |-> wt[a + 1][i] * ev.x[pre + 1 + m + w[i]]])
             ax == Min2(AbsTotal(ev.x), (ev.n + 1) * MaxAbs(ev.x))
         IN  IF Len(ev.y) # n \/ Len(ev.t2) # n THEN Bad(st, "the oversampled signal or its axis has the wrong length")
             ELSE Bad(st, First(<<
               <<\A m \in 0..(Len(ev.x) - ev.n - 1) : ev.y[m * ev.osr + 1] = ev.x[pre + 1 + m] * TS, "an original sample is not kept">>,
               <<\A i \in 1..n : ev.t2[i] = i - 1, "the new time axis does not match">>,
               <<Len(ev.t1) - (Len(ev.x) - ev.n) \in {0, 1} /\ \A i \in 1..Len(ev.t1) : ev.t1[i] = (i - 1) * ev.osr, "the old time axis does not match">>,
               <<\A m \in 0..(Len(ev.x) - ev.n - 1) : \A a \in 1..(ev.osr - 1) :
                   Abs(ev.y[m * ev.osr + a + 1] - at(m, a)) <= ax * TolOf(ev.method, ev.n) + ITol, "an interpolated sample is not the weighted window">> >>))
       [] ev.op = "poly" ->         \* the signal is the polynomial c at 0, 1, ..; y in units 1/osr^deg
         LET n == OutLen(ev.N, ev.n, ev.osr) IN
         Bad(st, First(<<
           <<Len(ev.y) = n, "the oversampled signal has the wrong length">>,
           <<Len(ev.y) # n \/ \A i \in 1..n : ev.y[i] = PolyQ(ev.c, TrimPre(ev.n) * ev.osr + i - 1, ev.osr), "a polynomial of admissible degree is not reproduced">> >>))
       [] OTHER -> Bad(st, "unknown event")
==============================================================================
