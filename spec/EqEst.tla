-------------------------------- MODULE EqEst --------------------------------
(* Least squares equalizer estimation.                                         *)
(* Signal x and reference r are integers in units 1/U.  With L = post+pre+1    *)
(* forward taps f (f[1] on the latest sample) and feedback taps d (d[1] on the *)
(* latest decision), row m (from 1) models reference sample m + Len(d) from    *)
(* the L samples starting there and the Len(d) references before it.           *)
EXTENDS ChanEst
Fwd(x, L, D, m, k) == x[m + D + L - k]            \* sample seen by forward tap k in row m
Fbk(r, D, m, k) == -r[m + D - k]                  \* (negated) reference seen by feedback tap k
Reg(x, r, L, D, m, k) == IF k <= L THEN Fwd(x, L, D, m, k) ELSE Fbk(r, D, m, k - L)
(* equalizer output of row m, taps t = f \o d *)
EqOut(x, r, L, D, t, m) == FoldLeft(LAMBDA a, k : a + t[k] * Reg(x, r, L, D, m, k), 0, Iota(L + D))
Rows(x, L, D) == Len(x) - L - D + 1               \* rows whose samples all exist
(* error of row m, taps in units 1/T *)
RowErr(x, r, L, D, t, T, m) == EqOut(x, r, L, D, t, m) - T * r[m + D]
(* the reference seen by the estimator when it is built from the PRBS: the pattern advanced by the postcursors *)
AlignedRef(pat, rot, post, n) == [m \in 1..n |-> At(pat, m - 1 + rot + post)]

EqeInit(cfg) == [x |-> 0]
(* ev.f, ev.d: returned taps times T; ev.g gain times 10^4; ev.err residual times 100 (<<>> if not reported); *)
(* ev.ratio: error power over output power times 10^4                                                          *)
EqeApply(cfg, st, ev) ==
  LET L == cfg.pre + cfg.post + 1
      D == cfg.dfe
      T == cfg.T
      U == cfg.U
      pat == PatternOf(cfg.n, cfg.k, cfg.c, cfg.f, cfg.gray)
      P == Len(pat)
      sp == Force(SumPeriods(cfg.x, P))
      np == Periods(cfg.x, P)
      x == IF cfg.prbs = 1 /\ Len(cfg.x) >= P THEN Force([i \in 1..P |-> sp[i] \div np]) ELSE cfg.x
      ref == IF cfg.prbs = 0 THEN cfg.r
             ELSE Force([i \in 1..Len(x) |-> Neg(At(pat, i - 1 + cfg.rot + cfg.post), cfg.inv) * U])
      N == Rows(x, L, D) - 1
      K == L + D
      \* normalized taps are divided by the gain: undo it with the reported one
      raw == ev.f \o ev.d
      t == IF cfg.norm = 0 THEN raw ELSE Force([k \in 1..K |-> (raw[k] * ev.g) \div 10000])
      sl == IF cfg.norm = 0 THEN 1 ELSE 3
      e == Force([m \in 1..N |-> RowErr(x, ref, L, D, t, T, m)])
      \* what rounding the taps to 1/T may contribute
      te == Force([m \in 1..N |-> sl * Sum([k \in 1..K |-> Abs(Reg(x, ref, L, D, m, k))])])
      mx == MaxOf([i \in 1..N |-> Abs(e[i])])
      \* gradient of the squared error plus cfg.lam times the squared taps (ridge)
      orth(k) == FoldLeft(LAMBDA a, m : a + (e[m] \div 8) * Reg(x, ref, L, D, m, k), 0, Iota(N)) + (cfg.lam * U * U * t[k]) \div 8
      tol(k) == FoldLeft(LAMBDA a, m : a + Abs(Reg(x, ref, L, D, m, k)) * (2 + te[m] \div 16), 0, Iota(N)) + (sl * cfg.lam * U * U) \div 8 + 1
      q == Max2(1, (T * U) \div 100)                    \* errors in hundredths
      sse == Sum([m \in 1..N |-> (e[m] \div q) * (e[m] \div q)])       \* times 10^4
      nse == Sum([m \in 1..N |-> Abs(e[m] \div q) + 1])
      pw == Sum([m \in 1..N |-> LET y == (e[m] + T * ref[m + D]) \div (10 * q) IN y * y])    \* times 100
  IN
  IF ev.op # "eqe" THEN Bad(st, "unknown event")
  ELSE IF cfg.lam < 0 THEN [st |-> st, bad |-> First(<< <<ev.exc # "", "an unknown regularization was accepted">> >>)]
  ELSE IF ev.exc # "" THEN Bad(st, "estimation raised " \o ev.exc)
  ELSE IF Len(ev.f) # L THEN Bad(st, "the number of forward taps differs from the request")
  ELSE IF Len(ev.d) # D THEN Bad(st, "the number of feedback taps differs from the request")
  ELSE IF Abs(ev.g) > 40000 THEN Bad(st, "the gain is out of range")
  ELSE IF ~ \A k \in 1..K : Abs(raw[k]) <= 3 * T THEN Bad(st, "a tap is out of range")
  ELSE IF cfg.norm = 0 /\ ev.g # 10000 THEN Bad(st, "a gain is reported without normalization")
  ELSE IF cfg.norm = 1 /\ MaxOf(ev.f) # T THEN Bad(st, "the largest normalized forward tap is not 1")
  ELSE IF mx > 4 * T * U THEN Bad(st, "the equalized signal is far from the reference")
  ELSE IF cfg.exact = 1 /\ ~ \A m \in 1..N : 2 * Abs(e[m]) <= 2 * te[m] + 4 THEN Bad(st, "the equalized signal differs from the reference")
  ELSE IF ~ \A k \in 1..K : Abs(orth(k)) <= tol(k) THEN Bad(st, "the taps do not minimize the squared error")
  ELSE IF Len(ev.err) > 0 /\ Abs(ev.err[1] - sse \div 100) > 2 + nse \div 50 + sse \div 2000 THEN Bad(st, "the reported residual is not the squared error")
  ELSE IF cfg.exact = 0 /\ Abs(sse - ev.ratio * (pw \div 100)) > nse + (sse \div 10) + pw \div 1000 + N + 2 * (pw \div 100) THEN Bad(st, "the reported MSE is not the relative error power")
  ELSE IF cfg.exact = 1 /\ ev.ratio > 0 THEN Bad(st, "the reported MSE of an exact solution is not zero")
  ELSE Good(st)
==============================================================================
