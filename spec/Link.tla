-------------------------------- MODULE Link ---------------------------------
(* The transmit-receive chain as one system: a PRBS source, a binary code, bit *)
(* packing, symbol codes and a constellation at the transmitter; an FIR        *)
(* channel at the symbol instants with a decision-feedback equalizer and a     *)
(* slicer at the receiver; symbols cross in chunks of any size.                *)
(* o = [n, code, k, f, sdiff, gray, c, pn, h, dist]                            *)
EXTENDS Base
PR == INSTANCE Prbs
SY == INSTANCE Symbols
LC == INSTANCE LineCodes
BC == INSTANCE BlockCode
CC == INSTANCE ConvCode

G74 == << <<1,1,0,1,0,0,0>>, <<0,1,1,0,1,0,0>>, <<1,1,1,0,0,1,0>>, <<1,0,1,0,0,0,1>> >>
C57 == [G |-> << << <<1,0,1>>, <<1,1,1>> >> >>, fb |-> << <<>> >>, uf |-> << <<0, 0>> >>]
Ternary(o) == o.code \in {"bip", "mlt3"}
Blocks(bits, k) == [i \in 1..(Len(bits) \div k) |-> SubSeq(bits, (i - 1) * k + 1, i * k)]
FlatSeq(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

(* ------------------------------------------------------------ transmitter -- *)
Coded(o, bits) ==
  CASE o.code = "none" -> bits
    [] o.code = "diff" -> LC!Encode("diff", 2, bits)
    [] o.code \in {"man", "dman", "bip", "mlt3"} -> LC!Encode(o.code, 2, bits)
    [] o.code = "lin"  -> FlatSeq([i \in 1..Len(Blocks(bits, 4)) |-> BC!Codeword(G74, Blocks(bits, 4)[i])])
    [] o.code = "conv" -> CC!Conv(C57, bits)
Syms(o, chips) == IF Ternary(o) THEN chips ELSE SY!Pack(chips, o.k, o.f)
Card(o) == Len(SY!Levels(o.c))
Shaped(o, s) ==
  LET d == IF o.sdiff = 1 THEN LC!Encode("diff", Card(o), s) ELSE s
  IN  IF o.gray = 1 THEN [i \in 1..Len(d) |-> SY!GrayVal(d[i])] ELSE d
LevelsOf(o, s) == [i \in 1..Len(s) |-> SY!Neg(SY!Levels(o.c)[s[i] + 1], o.pn)]
TxLevels(o, bits) == LevelsOf(o, Shaped(o, Syms(o, Force(Coded(o, bits)))))

(* --------------------------------------------------------------- receiver -- *)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RxSyms(o, lv) ==
  LET a == Force([i \in 1..Len(lv) |-> Pos(SY!Levels(o.c), SY!Neg(lv[i], o.pn)) - 1])
      g == IF o.gray = 1 THEN Force([i \in 1..Len(a) |-> CHOOSE x \in 0..(Card(o) - 1) : SY!GrayVal(x) = a[i]]) ELSE a
  IN  IF o.sdiff = 1 THEN Force([i \in 1..Len(g) |-> (g[i] - (IF i = 1 THEN 0 ELSE g[i - 1])) % Card(o)]) ELSE g
Decoded(o, ch) ==
  CASE o.code = "none" -> ch
    [] o.code = "diff" -> [i \in 1..Len(ch) |-> (ch[i] + (IF i = 1 THEN 0 ELSE ch[i - 1])) % 2]
    [] o.code = "man"  -> [i \in 1..(Len(ch) \div 2) |-> ch[2 * i - 1]]
    [] o.code = "dman" -> [i \in 1..(Len(ch) \div 2) |-> IF ch[2 * i] = ch[2 * i - 1] THEN 1 ELSE 0]
    [] o.code = "bip"  -> [i \in 1..Len(ch) |-> IF ch[i] = 1 THEN 0 ELSE 1]
    [] o.code = "mlt3" -> [i \in 1..Len(ch) |-> IF ch[i] = (IF i = 1 THEN 0 ELSE ch[i - 1]) THEN 0 ELSE 1]
    [] o.code = "lin"  -> FlatSeq([i \in 1..Len(Blocks(ch, 7)) |-> CHOOSE u \in BC!Msgs(G74) : u \in BC!NearestMsgs(G74, Blocks(ch, 7)[i])])
    [] o.code = "conv" -> CHOOSE u \in [1..(Len(ch) \div 2) -> Bit] : CC!Conv(C57, u) = ch
RxBits(o, lv) ==
  LET s == RxSyms(o, lv) IN Decoded(o, IF Ternary(o) THEN s ELSE SY!Unpack(s, o.k, o.f))

(* -------------------------------------------------- channel and equalizer -- *)
(* one symbol through a channel h (in 1/8) with disturbance w (in 1/8) against *)
(* a slicer that knows the past decisions                                      *)
Past(s, i) == IF i <= Len(s) THEN s[Len(s) + 1 - i] ELSE 0
Chan(h, sent, a) == h[1] * a + Sum([i \in 1..(Len(h) - 1) |-> h[i + 1] * Past(sent, i)])
Eq(h, decs, y) == y - Sum([i \in 1..(Len(h) - 1) |-> h[i + 1] * Past(decs, i)])
Spacing(c) == IF c \in {"OOK", "PAM3"} THEN 1 ELSE 2
Alphabet(o) == {SY!Neg(l, o.pn) : l \in SeqSet(SY!Levels(o.c))}
NearestL(o, x) == CHOOSE l \in Alphabet(o) : \A m \in Alphabet(o) : Abs(x - o.h[1] * l) <= Abs(x - o.h[1] * m)
Decide(o, sent, decs, a, w) == NearestL(o, Eq(o.h, decs, Chan(o.h, sent, a) + w))
(* disturbances that cannot cross a decision threshold *)
Safe(o, w) == 2 * Abs(w) < o.h[1] * Spacing(o.c)

(* ------------------------------------------------------------------ traces -- *)
(* st: source register, levels in flight, frames not yet delivered, all bits   *)
LinkInit(cfg) == [seed |-> cfg.seed, q |-> <<>>, fr |-> <<>>, all |-> 0]
LinkApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, ev.op \o ": the chain raised " \o ev.exc)
  ELSE CASE ev.op = "tx" ->
         LET bin == AllBin(ev.bits)
             lv  == IF bin THEN TxLevels(cfg.o, ev.bits) ELSE <<>>
         IN  [st |-> [st EXCEPT !.seed = IF bin THEN PR!SeedAfter(st.seed, ev.bits) ELSE @,
                                !.q = @ \o lv, !.fr = Append(@, ev.bits), !.all = @ + Len(ev.bits)],
              bad |-> First(<< <<bin /\ Len(ev.bits) = ev.n, "the source did not give the requested bits">>,
                               <<bin /\ PR!FollowsRecurrence(PR!Poly(cfg.o.n), st.seed, ev.bits), "the source stream is not continued across frames">>,
                               <<ev.lv = lv, "the transmitted levels are not those of the configured chain">> >>)]
    [] ev.op = "rx" ->
         [st |-> [st EXCEPT !.q = Drop(@, Len(ev.dec))],
          bad |-> First(<< <<Len(ev.dec) <= Len(st.q), "more decisions than transmitted symbols">>,
                           <<ev.dec = Take(st.q, Len(ev.dec)), "the receiver decided a symbol that was not transmitted">> >>)]
    [] ev.op = "frame" ->
         [st |-> [st EXCEPT !.fr = IF @ = <<>> THEN @ ELSE Tail(@)],
          bad |-> First(<< <<st.fr # <<>>, "a frame was delivered twice">>,
                           <<st.fr = <<>> \/ ev.bits = st.fr[1], "the recovered bits differ from the transmitted ones">> >>)]
    [] ev.op = "check" ->
         [st |-> st, bad |-> First(<< <<ev.errors = 0, "the checker reports errors on an error-free link">>,
                                      <<ev.count = st.all, "the checker did not see every bit">> >>)]
    [] ev.op = "end" ->
         [st |-> st, bad |-> First(<< <<st.q = <<>>, "symbols were lost">>, <<st.fr = <<>>, "frames were lost">> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
