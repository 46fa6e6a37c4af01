-------------------------------- MODULE Psa ----------------------------------
(* The spectrum analyzer: what it must show for a sum of tones.                *)
(* c = [fs, rbw, osr, cplx, sb, mode, r, full, obw]; tones [m, A]: amplitude A *)
(* at m bins of fs / Nfft; obw = 0 when not given; dc: a constant added to     *)
(* real signals, counted in the signal's power                                  *)
EXTENDS Base
Modes == {"dB", "dBm", "dBm/Hz", "dBuv", "dBuv/sqrt(Hz)", "dBc", "dBFs"}
WinLen(c) == (19 * CeilDiv(c.fs, c.rbw)) \div 10
RECURSIVE Up2(_, _)
Up2(p, n) == IF p >= n THEN p ELSE Up2(2 * p, n)
Nfft(c) == Up2(1, WinLen(c) * c.osr)
(* bins shown: one-sided for real signals, both sides for complex ones *)
Bins(c) == LET n == Nfft(c) IN IF c.cplx = 0 THEN [i \in 1..((n \div 2) + 1) |-> i - 1]
           ELSE [i \in 1..n |-> IF i <= n \div 2 THEN i - 1 ELSE i - 1 - n]
(* twice the power of a tone, and of the signal *)
TonePow2(c, A) == IF c.cplx = 0 THEN A * A ELSE 2 * A * A
SigPow2(c, tones) == (2 * c.dc * c.dc) + Sum([i \in 1..Len(tones) |-> TonePow2(c, tones[i].A)])
(* unit relative to the plain squared signal, as <<numerator, denominator>>;   *)
(* voltage units without the 10^12 of microvolts squared                       *)
Span2(c) == IF c.cplx = 0 /\ c.sb = "DSB" THEN 1 ELSE 2          \* twice the effective fs, over fs
Mode(c) == IF c.obw > 0 THEN "dBc" ELSE c.mode
Obw(c) == IF c.obw > 0 THEN c.obw ELSE c.rbw
Unit(c, tones) ==
  LET fe == c.fs * Span2(c)      \* twice the effective fs
      m  == Mode(c) IN
  CASE m = "dB" -> <<1, 1>>
    [] m = "dBm" -> <<(1000 \div c.r) * c.rbw * 2, fe>>
    [] m = "dBm/Hz" -> <<(1000 \div c.r) * 2, fe>>
    [] m = "dBuv" -> <<2 * c.rbw, fe>>
    [] m = "dBuv/sqrt(Hz)" -> <<2, fe>>
    [] m = "dBc" -> <<4 * Obw(c), fe * SigPow2(c, tones)>>
    [] m = "dBFs" -> <<2 * Obw(c), fe * c.full * c.full>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(q) == LET g == Gcd(q[1], q[2]) IN <<q[1] \div g, q[2] \div g>>
(* main lobe of the default window: four window bins *)
Lobe(c) == ((4 * Nfft(c)) \div WinLen(c)) + 2

(* windows that are sums of cosines (weights in 10^-5): a tone with a whole     *)
(* number of periods in the window shows the window's own lines around it       *)
Cosines == [boxcar |-> <<100000>>, hann |-> <<50000, 50000>>, hamming |-> <<54000, 46000>>, blackman |-> <<42000, 50000, 8000>>,
            nuttall |-> <<36358, 48918, 13660, 1064>>, blackmanharris |-> <<35875, 48829, 14128, 1168>>,
            flattop |-> <<21558, 41663, 27726, 8358, 695>>]
(* amplitude of the k-th line over the central one, in 10^-4 *)
LineAmp(win, k) == LET a == Cosines[win] IN IF k = 0 THEN 10000 ELSE IF k >= Len(a) THEN 0 ELSE (a[k + 1] * 10000) \div (2 * a[1])
(* power shown k lines away from a tone of amplitude A, in 10^-4 *)
LinePow(c, win, A, k) == (((LineAmp(win, k) * LineAmp(win, k)) \div 100) * TonePow2(c, A)) \div 200

(* ------------------------------------------------------------------ traces -- *)
PsaInit(cfg) == [p |-> <<>>]
Near(x, y, tol) == Abs(x - y) <= tol
IdxOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Amp2(tones) == MaxOf([i \in 1..Len(tones) |-> tones[i].A * tones[i].A])
PsaApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, "the analyzer raised " \o ev.exc)
  ELSE CASE ev.op = "plain" ->      \* f: bins, p: powers in 10^-4
         LET c == cfg.c
             b == Force(Bins(c))
             T == cfg.tones
         IN  IF ev.f # b THEN Bad(st, "the frequency axis is not the analyzer's")
             ELSE IF Len(ev.p) # Len(b) THEN Bad(st, "not one power per frequency")
             ELSE [st |-> [p |-> ev.p],
               bad |-> First(<<
                 <<\A t \in 1..Len(T) : LET e == 5000 * TonePow2(c, T[t].A) IN Near(ev.p[IdxOf(b, T[t].m)], e, (e \div 200) + 2), "a tone is not shown with its power at its frequency">>,
                 \* the mean of every segment is removed, which disturbs the lobe around zero
                 <<\A i \in 1..Len(b) : (Abs(b[i]) > Lobe(c) /\ \A t \in 1..Len(T) : Abs(b[i] - T[t].m) > Lobe(c)) => ev.p[i] <= 5 * Amp2(T) + 1, "power is shown where there is no tone">>,
                 <<\A i \in 1..Len(b) : \A t \in 1..Len(T) : Abs(b[i] - T[t].m) <= Lobe(c) => ev.p[i] <= (5025 * TonePow2(c, T[t].A)) + 2, "a tone does not peak at its frequency">> >>)]
    [] ev.op = "unit" ->            \* the same signal in another unit
         LET c == [cfg.c EXCEPT !.mode = ev.mode, !.sb = ev.sb, !.obw = ev.obw, !.full = ev.full, !.r = ev.r]
             u == Reduce(Unit(c, cfg.tones))
         IN  [st |-> st, bad |-> First(<<
                <<Len(ev.p) = Len(st.p), "not one power per frequency">>,
                <<Len(ev.p) # Len(st.p) \/ \A i \in 1..Len(st.p) : Near(ev.p[i] * u[2], st.p[i] * u[1], u[1] + u[2] + ((st.p[i] * u[1]) \div 1000)), "the unit is not the documented multiple of the plain spectrum">> >>)]
    [] ev.op = "lines" ->           \* another window: its lines around every tone, nothing on the lines between them
         LET c == cfg.c
             b == Force(Bins(c))
             T == cfg.tones
             Off(i, t) == Abs(b[i] - T[t].m)
             Exp(i) == Sum([t \in 1..Len(T) |-> IF Off(i, t) % c.osr = 0 THEN LinePow(c, ev.win, T[t].A, Off(i, t) \div c.osr) ELSE 0])
         IN  IF WinLen(c) * c.osr # Nfft(c) THEN Bad(st, "the recorded lines do not fall on the analyzer's frequencies")
             ELSE IF ev.f # b THEN Bad(st, "the frequency axis is not the analyzer's")
             ELSE IF Len(ev.p) # Len(b) THEN Bad(st, "not one power per frequency")
             ELSE [st |-> st, bad |-> First(<<
                <<\A i \in 1..Len(b) : b[i] % c.osr = 0 => LET e == Exp(i) IN Near(ev.p[i], e, (e \div 200) + 4), "the window asked for is not the one applied">> >>)]
    [] ev.op = "fading" ->          \* a tone whose amplitude (cfg.amp) changes every quarter of a rectangular window, overlap ev.q quarters:
         LET c == cfg.c             \* the powers of all complete windows are averaged
             q == ev.q
             K == (Len(cfg.amp) - q) \div (4 - q)
             S(i) == Sum([j \in 1..4 |-> cfg.amp[((i - 1) * (4 - q)) + j]])
             e == (10000 * Sum([i \in 1..K |-> S(i) * S(i)])) \div ((IF c.cplx = 0 THEN 32 ELSE 16) * K)
             b == Force(Bins(c))
         IN  IF ev.f # b THEN Bad(st, "the frequency axis is not the analyzer's")
             ELSE IF Len(ev.p) # Len(b) THEN Bad(st, "not one power per frequency")
             ELSE [st |-> st, bad |-> First(<< <<Near(ev.p[IdxOf(b, cfg.m)], e, (e \div 1000) + 2), "the power is not the average over the overlapping windows">> >>)]
    [] ev.op = "refuse" -> [st |-> st, bad |-> ""]
    [] OTHER -> Bad(st, "unknown event")
RejectApply(cfg, st, ev) == IF cfg.kind = "refuse" THEN Bad(st, IF ev.exc # "" THEN "" ELSE "an unknown unit was accepted") ELSE PsaApply(cfg, st, ev)
==============================================================================
