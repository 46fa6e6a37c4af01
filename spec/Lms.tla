--------------------------------- MODULE Lms ---------------------------------
(* Gradients of the decision-directed equalizer adaptation.                    *)
(* inputs x, outputs y, references r, levels lv in units 1/S.                  *)
EXTENDS Trig
Nearest1(v, lv) == CHOOSE l \in SeqSet(lv) : \A m \in SeqSet(lv) : Abs(v - l) <= Abs(v - m)
RefOf(y, lv) == [i \in 1..Len(y) |-> Nearest1(y[i], lv)]
Errs(y, r) == [i \in 1..Len(y) |-> y[i] - r[i]]
SqSum(e) == Sum([i \in 1..Len(e) |-> e[i] * e[i]])
(* sum of e[n] z[n - d] over the samples where both exist *)
CorrAt(e, z, d) == FoldLeft(LAMBDA acc, n : IF n - d >= 1 /\ n - d <= Len(z) THEN acc + e[n] * z[n - d] ELSE acc, 0, Iota(Len(e)))
Overlap(N, d) == N - Abs(d)
FfeG(e, x, idx) == [k \in 1..Len(idx) |-> CorrAt(e, x, idx[k])]
DfeG(e, r, idx) == [k \in 1..Len(idx) |-> -CorrAt(e, r, idx[k])]

(* exp(-a/b), a >= 0, b > 0, in units 1/TS *)
ExpNeg(a, b) ==
  LET z == (a * (TS \div 8)) \div b          \* units 8/TS
      n == z \div (TS \div 8)
      f == (z - n * (TS \div 8)) * 8
      t2 == (f * (f \div 2)) \div TS  t3 == (t2 * (f \div 3)) \div TS  t4 == (t3 * (f \div 4)) \div TS
      t5 == (t4 * (f \div 5)) \div TS t6 == (t5 * (f \div 6)) \div TS
      fr == TS - f + t2 - t3 + t4 - t5 + t6
  IN  IF n > 12 THEN 0 ELSE FoldLeft(LAMBDA acc, i : (acc * 14715) \div TS, fr, Iota(n))
(* mixture terms of one output y: K = sum exp(-(y-l)^2 / (2 sigma^2)), M = sum (y-l) exp(..) [units 1/(S TS)] ; sigma = sn/sd *)
ArgA(y, l, sd) == (y - l) * (y - l) * sd * sd
ArgB(S, sn) == 2 * sn * sn * S * S
MixK(y, lv, S, sn, sd) == Sum([k \in 1..Len(lv) |-> ExpNeg(ArgA(y, lv[k], sd), ArgB(S, sn))])
MixM(y, lv, S, sn, sd) == Sum([k \in 1..Len(lv) |-> (y - lv[k]) * ExpNeg(ArgA(y, lv[k], sd), ArgB(S, sn))])
(* e = (M/K) sqrt(2 pi) L / sigma ; f = K / (sqrt(2 pi) sigma L) *)
Root2Pi == 2507                             \* thousandths
SoftErr(y, lv, S, sn, sd) ==                \* units 1/1000
  LET m == DivT(MixM(y, lv, S, sn, sd) , 40)     \* units 1/(1000 S)
      q == DivT(m * 1000, Max2(1, MixK(y, lv, S, sn, sd) \div 40))  \* M/K in thousandths of 1/S
  IN  DivT(DivT(q * Len(lv) * sd, S) * Root2Pi, 1000 * sn)
SoftLik(y, lv, S, sn, sd) == DivT(DivT(MixK(y, lv, S, sn, sd) * 1000, Root2Pi) * sd, sn * Len(lv))     \* units 1/TS

(* an output so far out that one level explains it alone: everything in closed form *)
LnM(n) == <<0, 693, 1099, 1386>>[n]                      \* thousandths
Alone(y, lv, S, sn, sd) ==                               \* the other levels weigh less than exp(-9)
  LET l == Nearest1(y, lv) IN \A m \in SeqSet(lv) : m = l \/ (ArgA(y, m, sd) - ArgA(y, l, sd)) \div ArgB(S, sn) >= 9
FarLoss(y, lv, S, sn, sd) == LET d == y - Nearest1(y, lv) IN (d * d * sd * sd * 500) \div (sn * sn * S * S) + 919 + LnM(sn) - LnM(sd) + LnM(Len(lv))
FarErr(y, lv, S, sn, sd) == LET d == y - Nearest1(y, lv) IN DivT(d * Root2Pi * Len(lv) * sd, sn * S)

LmsInit(cfg) == [x |-> 0]
Ref(ev) == IF ev.ref = 1 THEN ev.r ELSE RefOf(ev.y, ev.lv)
Rel(v, w, num) == Abs(v - w) <= num + Abs(w) \div 200
LmsApply(cfg, st, ev) ==
  CASE ev.op = "hard" ->
         IF ev.exc # "" THEN Bad(st, "the gradient raised " \o ev.exc)
         ELSE LET r == Force(Ref(ev))  e == Force(Errs(ev.y, r)) IN
         Bad(st, First(<<
           <<ev.mse = SqSum(e), "the mean squared error is wrong">>,
           <<ev.hasf = (IF Len(ev.fi) > 0 THEN 1 ELSE 0) /\ ev.hasd = (IF Len(ev.di) > 0 THEN 1 ELSE 0), "the wrong gradients are returned">>,
           <<ev.gf = FfeG(e, ev.x, ev.fi), "a forward gradient is wrong">>,
           <<ev.gd = DfeG(e, r, ev.di), "a feedback gradient is wrong">> >>))
    [] ev.op = "refuse" -> Bad(st, First(<< <<ev.exc # "", "a reference of the wrong length was accepted">> >>))
    [] ev.op = "types" -> IF ev.exc # "" THEN Bad(st, "the call raised " \o ev.exc)
                          ELSE Bad(st, First(<< <<Len(ev.a) = Len(ev.b) /\ \A i \in 1..Len(ev.a) : Abs(ev.a[i] - ev.b[i]) <= 1, "the gradients depend on the integer type">> >>))
    [] ev.op = "soft1" ->        \* one output: e (thousandths), lik = exp(-loss) in units 1/TS
         IF ev.exc # "" THEN Bad(st, "the soft gradient raised " \o ev.exc)
         ELSE Bad(st, First(<<
           <<Rel(ev.lik, SoftLik(ev.y, ev.lv, ev.S, ev.sn, ev.sd), 40), "the mixture likelihood loss is wrong">>,
           <<Rel(ev.e, SoftErr(ev.y, ev.lv, ev.S, ev.sn, ev.sd), 60), "the mixture error is wrong">> >>))
    [] ev.op = "far" ->          \* one output far from every level: e and loss in thousandths
         IF ev.exc # "" THEN Bad(st, "the soft gradient raised " \o ev.exc)
         ELSE IF ~Alone(ev.y, ev.lv, ev.S, ev.sn, ev.sd) THEN Bad(st, "the output is not far out")
         ELSE Bad(st, First(<<
           <<Rel(ev.loss, FarLoss(ev.y, ev.lv, ev.S, ev.sn, ev.sd), 4), "the mixture likelihood loss is wrong far from the levels">>,
           <<Rel(ev.e, FarErr(ev.y, ev.lv, ev.S, ev.sn, ev.sd), 60), "the mixture error is wrong far from the levels">> >>))
    [] ev.op = "soft" ->         \* many outputs: es, ls the recorded single-sample errors and losses (thousandths)
         IF ev.exc # "" THEN Bad(st, "the soft gradient raised " \o ev.exc)
         ELSE LET r == Force(Ref(ev))
                  tol(z) == Sum([i \in 1..Len(z) |-> Abs(z[i])]) + 2 IN
         Bad(st, First(<<
           <<Abs(ev.loss - Sum(ev.ls)) <= Len(ev.y) + 1, "the loss is not the mean of the sample losses">>,
           <<ev.hasf = (IF Len(ev.fi) > 0 THEN 1 ELSE 0) /\ ev.hasd = (IF Len(ev.di) > 0 THEN 1 ELSE 0), "the wrong gradients are returned">>,
           <<Len(ev.gf) = Len(ev.fi) /\ \A k \in 1..Len(ev.fi) : k <= Len(ev.gf) => Abs(ev.gf[k] - CorrAt(ev.es, ev.x, ev.fi[k])) <= tol(ev.x), "a forward gradient is wrong">>,
           <<Len(ev.gd) = Len(ev.di) /\ \A k \in 1..Len(ev.di) : k <= Len(ev.gd) => Abs(ev.gd[k] + CorrAt(ev.es, r, ev.di[k])) <= tol(r), "a feedback gradient is wrong">> >>))
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
