-------------------------------- MODULE Noise --------------------------------
(* Additive noise after a linear channel.  The noise itself is environment:    *)
(* the specification bounds its measured moments and fixes everything else.    *)
EXTENDS Streams
(* 10^(k/10), k = 0..9, times 10^4 *)
Db10 == <<10000, 12589, 15849, 19953, 25119, 31623, 39811, 50119, 63096, 79433>>
(* channel memory and outputs after the inputs x, a = 1 *)
ChanRun(b, x) == FoldLeft(LAMBDA s, v : LET r == TStep(b, <<1>>, s.z, v) IN [z |-> r.z, y |-> Append(s.y, r.y)],
                          [z |-> TStart(b, <<1>>), y |-> <<>>], x)
(* mean power of y divided by the SNR, against the measured noise power:        *)
(* ps = 1000 * mean square of the clean samples,                                *)
(* pn = 1000 * 10^dec * measured mean square of the noise, dec = floor(snr/10)  *)
PowerOk(ps, pn, snr, tol) == LET want == ps * 10
                                 have == (pn * Db10[(snr % 10) + 1]) \div 1000
                             IN  Abs(want - have) <= (want \div 1000) * tol + 20      \* tol in 1/1000
NoiseInit(cfg) == [x |-> 0]
NoiseApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, "the call raised " \o ev.exc)
  ELSE CASE ev.op = "moments" ->
         IF ~ \A v \in SeqSet(<<ev.pn, ev.mean, ev.xcorr, ev.scorr, ev.acorr, ev.vcorr, ev.in1, ev.in2>>) : Abs(v) <= 20000 THEN Bad(st, "the noise is not finite or has a wrong scale")
         ELSE Bad(st, First(<<
           <<ev.shp = ev.ishp, "the output has another shape">>,
           <<PowerOk(ev.ps, ev.pn, ev.snr, ev.tol), "the noise power does not give the requested SNR">>,
           <<Abs(ev.mean) <= ev.lim, "the noise has a mean">>,
           <<Abs(ev.xcorr) <= ev.lim /\ Abs(ev.scorr) <= ev.lim, "the noise depends on the signal">>,
           <<Abs(ev.vcorr) <= ev.lim, "the spread of the noise depends on the signal or on the position">>,
           <<Abs(ev.acorr) <= ev.lim, "the noise is not white">>,
           <<Abs(ev.in1 - 6827) <= ev.lim /\ Abs(ev.in2 - 9545) <= ev.lim, "the noise is not Gaussian">>,
           <<ev.fresh = 1, "two calls added the same noise">> >>))
       [] ev.op = "clean" -> Bad(st, First(<< <<ev.y = ev.want /\ Len(ev.y) = ev.n, "without an SNR the output is not the filtered signal">> >>))
       [] ev.op = "memory" -> Bad(st, First(<< <<ev.z = ev.z0, "the returned memory depends on the noise">> >>))
       [] ev.op = "silent" -> Bad(st, First(<< <<ev.y = Zeros(ev.n), "noise was added to silence">> >>))
       [] OTHER -> Bad(st, "unknown event")
==============================================================================
