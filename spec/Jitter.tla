------------------------------- MODULE Jitter --------------------------------
(* Random jitter of the shaped signal.  Each symbol k has one displacement     *)
(* d[k] of its sampling instants; the waveform itself is not changed.          *)
EXTENDS Pulse
(* sample j (0-based) of symbol k (from 1) of a waveform w given F times finer than the output *)
WaveAt(w, i) == IF i < 0 THEN w[1] ELSE IF i >= Len(w) THEN w[Len(w)] ELSE w[i + 1]
Jittered(w, F, osr, d) == [i \in 1..(osr * Len(d)) |-> WaveAt(w, (i - 1) * F + d[(i - 1) \div osr + 1])]

(* ---- readings of the real code on a waveform of constant slope: the displacement of every sample is visible ---- *)
(* cfg.sigma: requested standard deviation in 1/10000 UI                                                             *)
JitInit(cfg) == [x |-> 0]
JitApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, "shaping with jitter raised " \o ev.exc)
  ELSE CASE ev.op = "shape" ->         \* number of samples and memory, with and without jitter
         [st |-> st, bad |-> First(<<
            <<ev.n = cfg.osr * ev.nsym, "the shaped signal does not have ratio-many samples per symbol">>,
            <<ev.z = ev.z0, "the returned memory depends on the jitter">> >>)]
       [] ev.op = "disp" ->            \* displacements (1/10000 UI), a row per symbol
         [st |-> st, bad |-> First(<<
            <<\A k \in 1..Len(ev.d) : MaxOf(ev.d[k]) - MinOf(ev.d[k]) <= cfg.res + (Abs(ev.d[k][1]) * 8) \div 100, "the samples of a symbol do not share one displacement">> >>)]
       [] ev.op = "moments" ->         \* over ev.n symbols, all in 1/10000 of sigma or of one
         [st |-> st, bad |-> First(<<
            <<Abs(ev.std - 10000) <= ev.tol + cfg.rres, "the jitter does not have the requested standard deviation">>,
            <<Abs(ev.mean) <= ev.lim + cfg.rres, "the jitter is not zero-mean">>,
            <<Abs(ev.acorr) <= ev.lim + cfg.rres, "the displacements of different symbols are correlated">>,
            <<Abs(ev.vcorr) <= ev.lim + cfg.rres, "the spread of the jitter depends on the position">>,
            <<Abs(ev.in1 - 6827) <= ev.lim + 2 * cfg.rres, "the jitter is not Gaussian (one sigma)">>,
            <<Abs(ev.in2 - 9545) <= ev.lim + 2 * cfg.rres, "the jitter is not Gaussian (two sigma)">>,
            <<ev.fresh = 1, "two calls use the same jitter">> >>)]
       [] ev.op = "tone" ->            \* the waveform is a unit tone of den symbols a period: two neighbouring samples a, b of a symbol (1/10000), wherever they
                                       \* are taken, satisfy a^2 + b^2 - 2 a b cos(delta) = sin(delta)^2
         LET c == CosPi(2, ev.den * cfg.osr)  s == SinPi(2, ev.den * cfg.osr)
             f(a, b) == DivT(a * a + b * b, 10000) - DivT(DivT(2 * a * b, 10000) * c, TS) - DivT(s * DivT(s, 4), TS) IN
         [st |-> st, bad |-> First(<<
            <<\A k \in 1..Len(ev.s) : \A j \in 1..(Len(ev.s[k]) - 1) : Abs(ev.s[k][j]) <= 11000 /\ Abs(ev.s[k][j + 1]) <= 11000, "a displaced sample lies outside the waveform">>,
            <<\A k \in 1..Len(ev.s) : \A j \in 1..(Len(ev.s[k]) - 1) :
                Abs(ev.s[k][j]) > 11000 \/ Abs(ev.s[k][j + 1]) > 11000 \/ Abs(f(ev.s[k][j], ev.s[k][j + 1])) <= 12, "the displaced samples do not lie on the waveform">> >>)]
       [] ev.op = "clean" ->           \* no jitter requested: the same as the default, twice
         [st |-> st, bad |-> First(<< <<ev.a = ev.b, "a signal without jitter is not the shaped signal">> >>)]
       [] OTHER -> Bad(st, "unknown event")
==============================================================================
