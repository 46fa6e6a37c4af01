------------------------------ MODULE Framing --------------------------------
(* buffer, upsample, zero order hold, binary helpers                           *)
EXTENDS Base
(* rows start every (length - overlap) samples while they bring new samples *)
FrameStarts(n, len, ov, d) == LET s == len - ov  total == d + n - Max2(ov, 0) IN [i \in 1..(IF total <= 0 THEN 0 ELSE CeilDiv(total, s)) |-> (i - 1) * s]
FrameAt(x, d, len, s) == [j \in 1..len |-> LET i == s + j - d IN IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0]
Frames(x, len, ov, d, clip) ==
  LET st == FrameStarts(Len(x), len, ov, d)
      keep == IF clip = 1 THEN SelectSeq(st, LAMBDA s : s + len <= d + Len(x)) ELSE st
  IN  [i \in 1..Len(keep) |-> FrameAt(x, d, len, keep[i])]
Ups(x, r) == [i \in 1..(r * Len(x)) |-> IF (i - 1) % r = 0 THEN x[(i - 1) \div r + 1] ELSE 0]
Hold(x, r) == [i \in 1..(r * Len(x)) |-> x[(i - 1) \div r + 1]]
PermTable(k) == [i \in 1..Pow2(k) |-> BitsMsb(i - 1, k)]
Flatten(m) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, m)
Words(v, k) == [i \in 1..Len(v) |-> BitsMsb(v[i], k)]
Vals(b, k) == [i \in 1..(Len(b) \div k) |-> ValMsb(SubSeq(b, (i - 1) * k + 1, i * k))]
SumSq(x) == Sum([i \in 1..Len(x) |-> x[i] * x[i]])
FrameInit(cfg) == [x |-> 0]
FrameApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, ev.op \o " raised " \o ev.exc)
  ELSE CASE ev.op = "buffer" ->
         LET f == Frames(ev.x, ev.len, ev.ov, ev.d, ev.clip) IN
         Bad(st, First(<<
           <<ev.shp = <<Len(f), ev.len>>, "the number or length of the rows is wrong">>,
           <<ev.out = Flatten(f), "a row does not hold the samples it should">> >>))
       [] ev.op = "upsample" -> Bad(st, First(<< <<ev.out = Ups(ev.x, ev.r), "upsampling does not insert rate-1 zeros after each sample">> >>))
       [] ev.op = "zoh" -> Bad(st, First(<< <<ev.out = Hold(ev.x, ev.r), "the hold does not repeat each sample">> >>))
       [] ev.op = "perm" -> Bad(st, First(<<
           <<ev.shp = <<Pow2(ev.k), ev.k>>, "the permutation table has the wrong size">>,
           <<ev.out = Flatten(PermTable(ev.k)), "the permutation table does not count in binary">> >>))
       [] ev.op = "uint2bin" -> Bad(st, First(<<
           <<ev.shp = Append(ev.ishp, ev.k), "uint2bin: wrong shape">>,
           <<ev.out = Flatten(Words(ev.x, ev.k)), "uint2bin: wrong bits">> >>))
       [] ev.op = "bin2uint" -> Bad(st, First(<<
           <<ev.shp = ev.ishp, "bin2uint: wrong shape">>,
           <<ev.out = Vals(ev.x, ev.k), "bin2uint: wrong values">> >>))
       [] ev.op = "wide" ->         \* words x of k bits against their high and low (ev.lo bits) halves
           LET w(i) == SubSeq(ev.x, (i - 1) * ev.k + 1, i * ev.k) IN
           Bad(st, First(<<
             <<Len(ev.hi_) = ev.n /\ Len(ev.x) = ev.n * ev.k, "wide words: wrong shape or type">>,
             <<Len(ev.hi_) # ev.n \/ Len(ev.x) # ev.n * ev.k \/ \A i \in 1..ev.n : ev.hi_[i] = ValMsb(SubSeq(w(i), 1, ev.k - ev.lo)) /\ ev.lo_[i] = ValMsb(SubSeq(w(i), ev.k - ev.lo + 1, ev.k)),
               "wide words: a value does not match its bits">> >>))
       [] ev.op = "hamming" ->      \* cb: M codewords, x: N words of length k; tab is M x N; idx of a nearest codeword
           LET cw(i) == SubSeq(ev.cb, (i - 1) * ev.k + 1, i * ev.k)
               wd(j) == SubSeq(ev.x, (j - 1) * ev.k + 1, j * ev.k)
               D == [i \in 1..ev.M |-> [j \in 1..ev.N |-> HammingDist(cw(i), wd(j))]]
           IN  Bad(st, First(<<
                 <<ev.shp = <<ev.M, ev.N>>, "the distance table has the wrong size">>,
                 <<ev.out = Flatten(D), "a Hamming distance is wrong">>,
                 <<Len(ev.idx) = ev.N, "not one index per word">>,
                 <<Len(ev.idx) # ev.N \/ \A j \in 1..ev.N : ev.idx[j] \in 0..(ev.M - 1) /\ \A i \in 1..ev.M : D[ev.idx[j] + 1][j] <= D[i][j], "an index is not a nearest codeword">> >>))
       [] ev.op = "power" ->        \* x in units 1/u (real and imaginary parts); p = power * u^2 * len, r = rms * 1000
           Bad(st, First(<<
             <<ev.p = SumSq(ev.x) + SumSq(ev.im), "the power is not the mean square">>,
             <<LET w == ev.r * ev.r  e == (SumSq(ev.x) + SumSq(ev.im)) * (1000000 \div (ev.u * ev.u)) IN
               Abs(w * Len(ev.x) - e) <= 4 * Len(ev.x) * (ev.r + 1), "the RMS is not the root of the power">> >>))
       [] OTHER -> Bad(st, "unknown event")
==============================================================================
