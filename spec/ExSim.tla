-------------------------------- MODULE ExSim --------------------------------
(* The example simulation's objects: transmitter, encoder and decoder built    *)
(* from one coding configuration, memory-carrying front end, error counter.    *)
(* cd = [c, k, f, bdiff, man, bip, mlt3, dman, lin, conv, sdiff, gray]; k = 0  *)
(* stands for the three-level case                                             *)
EXTENDS Base
PR == INSTANCE Prbs
SY == INSTANCE Symbols
LC == INSTANCE LineCodes
BC == INSTANCE BlockCode
CC == INSTANCE ConvCode
ST == INSTANCE Streams
LK == INSTANCE Link

ExG == LK!G74
ExC == [G |-> << << <<1, 0>>, <<0, 1>> >> >>, fb |-> << <<1, 1>> >>, uf |-> << <<0, 1>> >>]
If(on, a, b) == IF on = 1 THEN a ELSE b
Fec(cd, x) == IF cd.lin = 1 THEN LK!FlatSeq([i \in 1..(Len(x) \div 4) |-> BC!Codeword(ExG, SubSeq(x, 4 * i - 3, 4 * i))])
              ELSE IF cd.conv = 1 THEN CC!Conv(ExC, x) ELSE x
(* binary codes, in the order of the configuration *)
Binary(cd, bits) ==
  LET a == If(cd.bdiff, LC!Encode("diff", 2, bits), bits)
      b == If(cd.man, LC!Encode("man", 2, a), a)
      c == If(cd.bip, LC!Encode("bip", 2, b), b)
      d == If(cd.mlt3, LC!Encode("mlt3", 2, c), c)
      e == If(cd.dman, LC!Encode("dman", 2, d), d)
  IN  Force(Fec(cd, e))
SymsOf(cd, x) == IF cd.k >= 2 THEN SY!Pack(x, cd.k, cd.f)
                 ELSE IF cd.f.pn = 0 THEN x
                 ELSE [i \in 1..Len(x) |-> (IF cd.k = 1 THEN 1 ELSE 2) - x[i]]
Card(cd) == Len(SY!Levels(cd.c))
EncSyms(cd, bits) ==
  LET s == Force(SymsOf(cd, Binary(cd, bits)))
      d == If(cd.sdiff, LC!Encode("diff", Card(cd), s), s)
  IN  If(cd.gray, Force([i \in 1..Len(d) |-> SY!GrayVal(d[i])]), d)

(* the inverse, stage by stage from the last to the first *)
O(code) == [code |-> code]
DecSyms(cd, y) ==
  LET g == If(cd.gray, Force([i \in 1..Len(y) |-> CHOOSE x \in 0..(Card(cd) - 1) : SY!GrayVal(x) = y[i]]), y)
      d == If(cd.sdiff, Force([i \in 1..Len(g) |-> (g[i] - (IF i = 1 THEN 0 ELSE g[i - 1])) % Card(cd)]), g)
      u == IF cd.k >= 2 THEN Force(SY!Unpack(d, cd.k, cd.f)) ELSE Force(SymsOf(cd, d))
      h == IF cd.lin = 1 THEN LK!Decoded(O("lin"), u)
           ELSE IF cd.conv = 1 THEN [i \in 1..(Len(u) \div 2) |-> u[2 * i - 1]] ELSE u     \* systematic code
      e == If(cd.dman, LK!Decoded(O("dman"), h), h)
      m == If(cd.mlt3, LK!Decoded(O("mlt3"), e), e)
      b == If(cd.bip, LK!Decoded(O("bip"), m), m)
      a == If(cd.man, LK!Decoded(O("man"), b), b)
  IN  Force(If(cd.bdiff, LK!Decoded(O("diff"), a), a))
Valid(cd, n) ==
  LET w == n * If(cd.man, 2, 1) * If(cd.dman, 2, 1)
      m == IF cd.lin = 1 THEN (w \div 4) * 7 ELSE IF cd.conv = 1 THEN 2 * w ELSE w
  IN  (cd.lin = 1 => w % 4 = 0) /\ (cd.k >= 2 => m % cd.k = 0)
(* levels scaled to a peak-to-peak amplitude *)
Scaled(c, amp) == LET l == SY!Levels(c) IN [i \in 1..Len(l) |-> (l[i] * amp) \div (2 * MaxOf(l))]
ScaledOf(cd, amp, s) == LET l == Force(Scaled(cd.c, amp)) IN [i \in 1..Len(s) |-> l[s[i] + 1]]

(* --------------------------------------------------------- error counter -- *)
(* distance of the bits to the closest rotation of the reference period; the   *)
(* first period decides the rotation                                           *)
RotDist(ref, bits, k) == Cardinality({i \in 1..Len(bits) : bits[i] # ref[((i - 1 + k) % Len(ref)) + 1]})
MinErr(ref, bits) ==
  LET f == Force(Take(bits, Len(ref))) IN
  FoldLeft(LAMBDA acc, k : LET d == RotDist(ref, f, k) IN IF d < acc.d THEN [d |-> d, k |-> k, tie |-> 0]
                           ELSE IF d = acc.d THEN [acc EXCEPT !.tie = 1] ELSE acc,
           [d |-> Len(f) + 1, k |-> 0, tie |-> 0], [i \in 1..Len(ref) |-> i - 1])

(* ----------------------------------------------------------------- traces -- *)
ExInit(cfg) == IF cfg.kind = "one" THEN [pos |-> 0]
               ELSE IF cfg.kind = "eq" THEN ST!EqStart(cfg)
               ELSE [seed |-> cfg.seed, prev |-> <<>>, bits |-> <<>>, out |-> 0, err |-> 0, sym |-> 0]
AdcOk(cfg, in, out) ==
  LET n == IF Len(in) <= cfg.phase THEN 0 ELSE CeilDiv(Len(in) - cfg.phase, cfg.stride) IN
  /\ Len(out) = n
  /\ \A i \in 1..n : SY!QuantOk(in[cfg.phase + 1 + (i - 1) * cfg.stride], out[i] * Pow2(cfg.u), cfg.b, 0, cfg.ty, cfg.u)
ExApply(cfg, st, ev) ==
  IF cfg.kind \in {"one", "eq"} THEN ST!StreamApply(cfg, st, ev)
  ELSE IF ev.exc # "" THEN Bad(st, ev.op \o ": the example raised " \o ev.exc)
  ELSE CASE ev.op = "tx" ->
         LET bin == AllBin(ev.bits) /\ Len(ev.bits) = cfg.n
             s   == IF bin THEN PR!SeedAfter(st.seed, ev.bits) ELSE st.seed
             y   == IF bin THEN EncSyms(cfg.cd, ev.bits) ELSE <<>>
         IN  [st |-> [st EXCEPT !.seed = s, !.prev = st.seed, !.bits = @ \o ev.bits],
              bad |-> First(<<
                <<bin, "a chunk does not have the configured number of bits">>,
                <<bin /\ PR!FollowsRecurrence(PR!Poly(Len(st.seed)), st.seed, ev.bits), "the transmitter's chunks are not one continuous PRBS stream">>,
                <<ev.sd = s, "the generator's seed is not the end of the stream">>,
                <<ev.psd = st.seed, "the generator's previous seed is not the start of the chunk">>,
                <<ev.sym = y, "the encoded chunk is not that of the coding configuration">>,
                <<ev.sym # y \/ ev.lv = ScaledOf(cfg.cd, cfg.amp, y), "the transmitted levels are not the scaled constellation">> >>)]
    [] ev.op = "dec" ->
         [st |-> st, bad |-> First(<< <<ev.out = LastN(st.bits, cfg.n), "the decoder does not invert the encoder">> >>)]
    [] ev.op = "adc" ->
         [st |-> st, bad |-> First(<< <<AdcOk(cfg, ev.in, ev.out), "the converter's samples are not the rounded input samples">> >>)]
    [] ev.op = "link" ->       \* received chunk: the transmitted stream delayed by cfg.delay bits
         [st |-> [st EXCEPT !.out = @ + Len(ev.out)],
          bad |-> First(<<
            <<Len(ev.out) = cfg.n, "a received chunk does not have the transmitted number of bits">>,
            <<\A i \in 1..Len(ev.out) : LET p == st.out + i - cfg.delay IN p < 1 \/ (p <= Len(st.bits) /\ ev.out[i] = st.bits[p]),
              "the link did not deliver the transmitted bits">> >>)]
    [] ev.op = "ber" ->        \* errs: positions where the recorder flipped a bit of a clean stream
         LET m == MinErr(cfg.ref, ev.bits)
             e == RotDist(cfg.ref, ev.bits, m.k)
         IN  [st |-> [st EXCEPT !.err = @ + e, !.sym = @ + Len(ev.bits)],
              bad |-> First(<<
                <<m.tie = 0 \/ Len(ev.bits) <= Len(cfg.ref), "recorder: ambiguous stream">>,
                <<ev.acce = st.err + e, "the accumulated error count is wrong">>,
                <<ev.kept = 1, "the checked bits are not kept in order">>,
                <<ev.accs = st.sym + Len(ev.bits), "the accumulated bit count is wrong">>,
                <<Abs(ev.ratio * Len(ev.bits) - e * 1000000) <= Len(ev.bits), "the reported error rate is not errors per bits">> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
