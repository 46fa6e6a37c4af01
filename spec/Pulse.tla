-------------------------------- MODULE Pulse --------------------------------
(* Pulse shaping.  The pulse is sampled at t = p/osr, p = -span*osr .. span*osr-1 *)
(* roll-off beta = u/v.  Pulse values in units 1/TS.                           *)
EXTENDS Trig
PulseLen(osr, span) == 2 * osr * span
Centre(osr, span) == osr * span
(* 1 - (m beta t)^2 = B / A *)
DenA(osr, v) == (v * osr) * (v * osr)
DenB(osr, u, v, p, m) == DenA(osr, v) - (m * u * p) * (m * u * p)
Near(osr, u, v, p, m) == 10 * Abs(DenB(osr, u, v, p, m)) < DenA(osr, v)
RectVal(osr, p) == IF 2 * p >= -osr /\ 2 * p < osr THEN TS ELSE 0
(* near a removable singularity the quotient is rewritten so that nothing cancels.  Raised cosine, beta t = 1/2 - e:   *)
(* cos(pi beta t) / (1 - (2 beta t)^2) = pi/4 sinc(e) / (1 - e)                                                         *)
RcosNear(osr, u, v, p) == LET w == 2 * v * osr  e == v * osr - 2 * u * p IN
  DivT(Ratio(DivT(SincR(p, osr) * SincS(e, w), TS), w, w - e) * 355, 113 * 4)
(* root raised cosine, 4 beta t = 1 - e, x = pi (t + 1/4): (4 beta/pi) (pi/2 sin x sinc(e/4) + sin((1-beta) pi t)/(1 - e)) / (2 - e) *)
RrcNear(osr, u, v, p) == LET w == v * osr  e == v * osr - 4 * u * p
                             a == DivT(DivT(SinPi(4 * p + osr, 4 * osr) * SincS(e, 4 * w), TS) * 355, 226)
                             b == Ratio(SinPi((v - u) * p, v * osr), w, w - e) IN
  DivT(DivT(Ratio(a + b, w, 2 * w - e) * 4 * 113, 355) * u, v)
RcosQuot(osr, u, v, p) == Ratio(DivT(SincR(p, osr) * CosPi(u * p, v * osr), TS), DenA(osr, v), DenB(osr, u, v, p, 2))
RrcQuot(osr, u, v, p) == Ratio(DivT(4 * u * 113 * CosPi((v + u) * p, v * osr), 355 * v) + DivT(SinPi((v - u) * p, v * osr) * osr * 113, 355 * p),
                               DenA(osr, v), DenB(osr, u, v, p, 4))
RcosVal(osr, u, v, p) ==
  IF DenB(osr, u, v, p, 2) = 0 THEN DivT(SincR(v, 2 * u) * 355, 113 * 4)
  ELSE IF Near(osr, u, v, p, 2) THEN RcosNear(osr, u, v, Abs(p))
  ELSE RcosQuot(osr, u, v, p)
(* 4 beta/pi * (cos((1+beta) pi t) + sin((1-beta) pi t)/(4 beta t)) / (1 - (4 beta t)^2) *)
RrcVal(osr, u, v, p) ==
  IF p = 0 THEN TS + DivT(u * (DivT(TS * 4 * 113, 355) - TS), v)
  ELSE IF DenB(osr, u, v, p, 4) = 0
  THEN LET k == DivT(TS * 226, 355)                  \* 2/pi
           w == DivT(((TS + k) \div 4) * SinPi(v, 4 * u), TS \div 4) + DivT(((TS - k) \div 4) * CosPi(v, 4 * u), TS \div 4)
       IN  DivT(DivT(u * w, v) * 7071, 10000)        \* beta / sqrt 2
  ELSE IF Near(osr, u, v, p, 4) THEN RrcNear(osr, u, v, Abs(p))
  ELSE RrcQuot(osr, u, v, p)
PulseVal(kind, osr, u, v, p) ==
  CASE kind = "rect" -> RectVal(osr, p) [] kind = "sinc" -> SincR(p, osr)
    [] kind = "rcos" -> RcosVal(osr, u, v, p) [] kind = "rrc" -> RrcVal(osr, u, v, p)
PTol == 60

(* shaped samples: n (0-based), symbols sym, pulse h (recorded), exact for integer pulses *)
ShapedAt(sym, h, osr, n) ==        \* only the symbols whose pulse reaches sample n
  LET lo == Max2(1, (n - Len(h)) \div osr + 1)  hi == Min2(Len(sym), n \div osr + 1) IN
  FoldLeft(LAMBDA acc, i : LET k == lo + i - 1  j == n - (k - 1) * osr IN IF j >= 0 /\ j < Len(h) THEN acc + sym[k] * h[j + 1] ELSE acc, 0, Iota(Max2(0, hi - lo + 1)))
Shaped(sym, h, osr) == [i \in 1..(osr * Len(sym)) |-> ShapedAt(sym, h, osr, i - 1)]
IntPulse(kind, osr, span) ==
  IF kind = "imp" THEN [i \in 1..PulseLen(osr, span) |-> IF i = 1 THEN 1 ELSE 0]
  ELSE [i \in 1..PulseLen(osr, span) |-> RectVal(osr, i - 1 - Centre(osr, span)) \div TS]

MaxAbs(s) == MaxOf([i \in 1..Len(s) |-> Abs(s[i])])
AbsTotal(s) == Sum([i \in 1..Len(s) |-> Abs(s[i])])
PulseInit(cfg) == [h |-> <<>>]
PulseApply(cfg, st, ev) ==
  CASE ev.op = "pulse" ->
         LET n == PulseLen(cfg.osr, cfg.span)  c == Centre(cfg.osr, cfg.span) IN
         IF ev.exc # "" THEN Bad(st, "shaping raised " \o ev.exc)
         ELSE IF Len(ev.h) # n THEN Bad(st, "the shaped signal does not have ratio-many samples per symbol")
         ELSE IF cfg.kind = "imp" THEN
           [st |-> [h |-> ev.h], bad |-> First(<< <<\A i \in 1..n : ev.h[i] = IF i = 1 THEN TS ELSE 0, "the impulse option does not only insert zeros">> >>)]
         ELSE
         [st |-> [h |-> ev.h],
          bad |-> First(<<
            <<\A i \in 1..n : Abs(ev.h[i]) <= 2 * TS, "a pulse value is not finite or far out of range">>,
            <<cfg.kind = "rrc" \/ \A i \in 1..n : ((i - 1 - c) % cfg.osr = 0) => ev.h[i] = (IF i - 1 = c THEN TS ELSE 0), "the pulse is not one at its centre and zero at the other symbol instants">>,
            <<cfg.kind = "rect" \/ \A d \in 1..(c - 1) : Abs(ev.h[c + 1 + d] - ev.h[c + 1 - d]) <= 1, "the pulse is not symmetric">>,
            <<\A i \in 1..n : LET p == i - 1 - c IN
                Abs(ev.h[i] - PulseVal(cfg.kind, cfg.osr, cfg.u, cfg.v, p)) <= PTol, "a pulse value differs from its closed form">> >>)]
    [] ev.op = "shape" ->
         LET n == cfg.osr * Len(ev.sym)
             d == Centre(cfg.osr, cfg.span)
             tol == Min2(AbsTotal(ev.sym), (2 * cfg.span + 1) * MaxAbs(ev.sym)) + 2 IN
         IF ev.exc # "" THEN Bad(st, "shaping raised " \o ev.exc)
         ELSE IF Len(ev.y) # n THEN Bad(st, "the shaped signal does not have ratio-many samples per symbol")
         ELSE [st |-> st, bad |-> First(<<
            <<\A i \in 1..n : Abs(ev.y[i] - ShapedAt(ev.sym, st.h, cfg.osr, i - 1)) <= tol, "a sample is not the superposition of the shifted pulses">>,
            <<cfg.kind \in {"rrc", "imp"} \/ \A k \in 1..Len(ev.sym) : LET i == d + (k - 1) * cfg.osr + 1 IN i <= n => Abs(ev.y[i] - ev.sym[k] * TS) <= 1,
              "a symbol instant does not carry the symbol">>,
            <<cfg.kind # "rect" \/ \A k \in 1..Len(ev.sym) : \A j \in 0..(cfg.osr - 1) :
                LET i == d + (k - 1) * cfg.osr + 1 + j - cfg.osr \div 2 IN i <= n => Abs(ev.y[i] - ev.sym[k] * TS) <= 1,
              "the rectangular pulse does not hold the symbol for one symbol time">> >>)]
    [] ev.op = "refuse" -> [st |-> st, bad |-> First(<< <<ev.exc # "", "a wrong memory length or pulse name was accepted">> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
