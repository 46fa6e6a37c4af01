------------------------------- MODULE ChanEst -------------------------------
(* Channel estimation from a cyclic PRBS pattern.                              *)
(* cfg: n PRBS size, k bits per symbol (1 or 2), c constellation, f packing    *)
(* flags, gray; h channel taps from delay -hp on, rot rotation of the pattern  *)
EXTENDS Prbs, Symbols
(* the transmitted levels over one period of 2^n-1 symbols, all-ones seed *)
PatternOf(n, k, c, f, gray) ==
  LET P == Pow2(n) - 1
      one == Gen(Poly(n), [i \in 1..n |-> 1], P).out
      two == one \o one
      sy == Force(IF k = 1 THEN Pack(one, 1, f) ELSE Pack(two, 2, f))
      lv == Levels(c)
  IN  Force([i \in 1..P |-> lv[(IF gray = 1 THEN GrayVal(sy[i]) ELSE sy[i]) + 1]])
(* pattern symbol sent at time t (from 0) *)
At(pat, t) == pat[(t % Len(pat)) + 1]
(* clean received sample at time t: taps h[1..] are delays -hp, -hp+1, ... *)
Received(pat, h, hp, rot, t) == FoldLeft(LAMBDA a, i : a + h[i] * At(pat, t + rot - (i - 1 - hp)), 0, Iota(Len(h)))
OnePeriod(pat, h, hp, rot) == [t \in 1..Len(pat) |-> Received(pat, h, hp, rot, t - 1)]
(* the samples averaged over the whole periods, times their number *)
Periods(sig, P) == Len(sig) \div P
SumPeriods(sig, P) == [t \in 1..P |-> FoldLeft(LAMBDA a, r : a + sig[(r - 1) * P + t], 0, Iota(Periods(sig, P)))]
(* channel tap of window position i (1..pre+post+1, delay i-1-pre) *)
Tap(h, hp, pre, i) == LET j == i - pre + hp IN IF j \in 1..Len(h) THEN h[j] ELSE 0
Window(h, hp, pre, post) == [i \in 1..(pre + post + 1) |-> Tap(h, hp, pre, i)]
Fits(h, hp, pre, post) == hp <= pre /\ Len(h) - hp - 1 <= post
(* correlation of the received period with the pattern delayed by i-1-pre *)
Cross(pat, s, rot, pre, i) == FoldLeft(LAMBDA a, t : a + At(pat, t - 1 + rot - (i - 1 - pre)) * s[t], 0, Iota(Len(pat)))
Auto(pat, d) == FoldLeft(LAMBDA a, t : a + At(pat, t - 1) * At(pat, t - 1 + d), 0, Iota(Len(pat)))

Small(v) == Abs(v) <= 10000
ChanInit(cfg) == [x |-> 0]
(* ev.est: the estimate divided by its largest magnitude, times 10^4; ev.peak: the largest value as    *)
(* returned times 10^4; ev.amp: the largest magnitude times the signal variance, in thousandths; ev.res residual times 10^6 (<<>> when not reported); ev.noise = 1: the estimate is judged as least squares *)
ChanApply(cfg, st, ev) ==
  LET pat == PatternOf(cfg.n, cfg.k, cfg.c, cfg.f, cfg.gray)
      P == Len(pat)
      w == Window(cfg.h, cfg.hp, cfg.pre, cfg.post)
      L == cfg.pre + cfg.post + 1
      s == Force(SumPeriods(cfg.sig, P))
      m == cfg.pre + 1
      au == [d \in 0..L |-> Auto(pat, d)]
      cr == Force([i \in 1..L |-> Cross(pat, s, cfg.rot, cfg.pre, i)])
      ge == Force([i \in 1..L |-> Sum([j \in 1..L |-> au[Abs(i - j)] * ev.est[j]])])
      one == Force(OnePeriod(pat, cfg.h, cfg.hp, cfg.rot))
      R == Periods(cfg.sig, P)
  IN
  IF ev.op # "est" THEN Bad(st, "unknown event")
  ELSE IF ev.exc # "" THEN Bad(st, "estimation raised " \o ev.exc)
  ELSE IF Len(ev.est) # L THEN Bad(st, "the estimate does not have one value per tap of the window")
  ELSE IF ~ \A i \in 1..L : Small(ev.est[i]) THEN Bad(st, "the estimate is not finite")
  ELSE IF cfg.noisy = 0 /\ s # [t \in 1..P |-> R * one[t]]
       THEN Bad(st, "(driver) the recorded signal is not the channel's output")
  ELSE IF ev.est[m] <= 0 THEN Bad(st, "the main cursor is not at the position after the precursors")
  ELSE IF cfg.norm = 1 /\ Abs(ev.peak - 10000) > 1 THEN Bad(st, "the normalized estimate does not have peak 1")
  ELSE IF cfg.noisy = 0 /\ ~ \A i \in 1..L : Abs(ev.est[i] * w[m] - w[i] * ev.est[m]) <= 2 * (Abs(w[m]) + Abs(w[i]))
       THEN Bad(st, "the estimate is not proportional to the channel")
  ELSE IF cfg.noisy = 0 /\ cfg.norm = 0 /\ Abs(ev.amp - 1000 * w[m]) > 2 + w[m]
       THEN Bad(st, "the estimate is not in units of the signal's variance")
  ELSE IF cfg.noisy = 0 /\ Len(ev.res) > 0 /\ ev.res[1] > 0 THEN Bad(st, "the residual of a noise-free channel is not zero")
  ELSE IF cfg.noisy = 1 /\ (cr[m] <= 0 \/ ge[m] <= 0) THEN Bad(st, "the estimate is not the least squares one")
  \* |ge[i] cr[m] - cr[i] ge[m]| small: compare ge[i]/10^4 * cr[m] in units that stay inside 32 bits
  ELSE IF cfg.noisy = 1 /\ ~ \A i \in 1..L :
            LET a == (ge[i] \div 256) * (cr[m] \div 8)
                b == (ge[m] \div 256) * (cr[i] \div 8)
            IN  Abs(a - b) <= (Abs(ge[m] \div 256) + Abs(cr[m] \div 8)) * 4 + (((ge[m] \div 256) * (cr[m] \div 8)) \div 1000)
       THEN Bad(st, "the estimate is not the least squares one")
  ELSE Good(st)
==============================================================================
