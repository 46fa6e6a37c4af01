------------------------------- MODULE Symbols -------------------------------
(* Bit packing, constellation mapping, Gray labels, slicer and quantizer.      *)
EXTENDS Base

(* ---------------------------------------------------------------- packing -- *)
(* f = [ord, msb, lsb, pn], 0/1 each; k bits per symbol                         *)
Flip(b, on) == IF on = 1 THEN 1 - b ELSE b
FlipAt(g, i, on) == [j \in 1..Len(g) |-> IF j = i THEN Flip(g[j], on) ELSE g[j]]
PackGroup(g, f) ==
  IF Len(g) = 1 THEN Flip(g[1], f.pn)
  ELSE LET a == IF f.ord = 1 THEN Rev(g) ELSE g
           b == FlipAt(a, Len(g), f.msb)
           c == FlipAt(b, 1, f.lsb)
       IN  ValLsb([j \in 1..Len(c) |-> Flip(c[j], f.pn)])
UnpackSym(s, k, f) ==
  IF k = 1 THEN <<Flip(s, f.pn)>>
  ELSE LET a == [j \in 1..k |-> Flip(BitsLsb(s, k)[j], f.pn)]
           b == FlipAt(a, k, f.msb)
           c == FlipAt(b, 1, f.lsb)
       IN  IF f.ord = 1 THEN Rev(c) ELSE c
Group(bits, k, i) == SubSeq(bits, (i - 1) * k + 1, i * k)
Pack(bits, k, f) == [i \in 1..(Len(bits) \div k) |-> PackGroup(Group(bits, k, i), f)]
Unpack(syms, k, f) == [j \in 1..(Len(syms) * k) |-> UnpackSym(syms[((j - 1) \div k) + 1], k, f)[((j - 1) % k) + 1]]

PackInit(cfg) == [x |-> 0]
PackApply(cfg, st, ev) ==
  CASE ev.op = "pack" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "packing raised " \o ev.exc>>,
           <<ev.out = Pack(ev.bits, ev.k, ev.f), "packed symbols differ">>,
           <<ev.shp = <<Len(ev.bits) \div ev.k>>, "packed shape differs">> >>)]
    [] ev.op = "unpack" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "unpacking raised " \o ev.exc>>,
           <<ev.out = Unpack(ev.syms, ev.k, ev.f), "unpacked bits differ">>,
           <<ev.shp = <<Len(ev.syms) * ev.k>>, "unpacked shape differs">> >>)]
    [] ev.op = "roundtrip" ->    \* unpack(pack(bits)), both by the code
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "round trip raised " \o ev.exc>>,
           <<ev.out = Take(ev.bits, (Len(ev.bits) \div ev.k) * ev.k), "round trip does not return the bits">> >>)]
    [] ev.op = "reject" ->
         [st |-> st, bad |-> First(<< <<ev.exc # "", "an alphabet that is not a power of two was accepted">> >>)]
    [] OTHER -> Bad(st, "unknown event")

(* ---------------------------------------------------------------- mapping -- *)
Levels(c) == CASE c = "NRZ" -> <<-1, 1>>
               [] c = "OOK" -> <<0, 1>>
               [] c = "PAM3" -> <<-1, 0, 1>>
               [] c = "PAM4" -> <<-3, -1, 1, 3>>
SumSq(s) == Sum([i \in 1..Len(s) |-> s[i] * s[i]])
Neg(x, on) == IF on = 1 THEN -x ELSE x
(* full scale: v is the level times 10^4, i.e. v^2 * sum(l^2) = l^2 * n * 10^8 *)
FullScaleOk(v, l, lv) == /\ Sign(v) = Sign(l)
                         /\ Abs(v * v * SumSq(lv) - l * l * Len(lv) * 100000000) <= 600000
FsSmall(c) == SumSq(Levels(c)) <= 2    \* keeps the products inside 32 bits
(* PAM4: divide both sides by 4: sum(l^2) = 20, n = 4 *)
FullScale(v, l, c) ==
  IF FsSmall(c) THEN FullScaleOk(v, l, Levels(c))
  ELSE /\ Sign(v) = Sign(l)
       /\ Abs(v * v * 5 - l * l * 100000000) <= 600000
MapOk(ev) ==
  /\ Len(ev.out) = Len(ev.syms)
  /\ \A i \in 1..Len(ev.syms) :
       LET s == ev.syms[i] + 1 IN
       IF Len(ev.lv) > 0 THEN ev.out[i] = Neg(ev.lv[s], ev.pn)
       ELSE IF ev.fs = 0 THEN ev.out[i] = Neg(Levels(ev.c)[s], ev.pn)
       ELSE FullScale(ev.out[i], Neg(Levels(ev.c)[s], ev.pn), ev.c)
GrayVal(i) == \* reflected code of i by its bits: b xor (b >> 1)
  LET b == BitsLsb(i, 16) IN ValLsb([j \in 1..16 |-> (b[j] + (IF j = 16 THEN 0 ELSE b[j + 1])) % 2])
IsGrayTable(tab) ==
  /\ SeqSet(tab) = 0..(Len(tab) - 1)
  /\ \A i \in 1..(Len(tab) - 1) : Cardinality({j \in 1..16 : BitsLsb(tab[i], 16)[j] # BitsLsb(tab[i + 1], 16)[j]}) = 1
InRange(s, n) == \A i \in 1..Len(s) : s[i] \in 0..(n - 1)

MapInit(cfg) == [x |-> 0]
MapApply(cfg, st, ev) ==
  CASE ev.op = "levels" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "levels raised " \o ev.exc>>,
           <<Len(ev.out) = Len(Levels(ev.c)), "wrong number of levels">>,
           <<ev.fs = 1 \/ ev.out = Levels(ev.c), "levels differ from the documented ones">>,
           <<ev.fs = 0 \/ \A i \in 1..Len(Levels(ev.c)) : FullScale(ev.out[i], Levels(ev.c)[i], ev.c), "full scale levels do not have unit power">> >>)]
    [] ev.op = "map" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "mapping raised " \o ev.exc>>,
           <<MapOk(ev), "a symbol is mapped to a wrong level">>,
           <<ev.shp = ev.ishp, "mapping changed the shape">> >>)]
    [] ev.op = "demap" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "demapping raised " \o ev.exc>>,
           <<ev.out = ev.syms, "demapping does not return the symbols">>,
           <<ev.shp = ev.ishp, "demapping changed the shape">> >>)]
    [] ev.op = "refuse" -> [st |-> st, bad |-> First(<< <<ev.exc # "", "a level list of the wrong size or an unknown constellation was accepted">> >>)]
    [] ev.op = "graytab" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "Gray table raised " \o ev.exc>>,
           <<Len(ev.out) = ev.n, "Gray table has the wrong size">>,
           <<InRange(ev.out, ev.n), "Gray label out of range">>,
           <<InRange(ev.out, ev.n) => IsGrayTable(ev.out), "not a Gray labelling">> >>)]
    [] ev.op = "gray" ->  \* all labels of the constellation, by the code: tab; coded = tab applied; decoded = input
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "Gray coding raised " \o ev.exc>>,
           <<Len(ev.tab) = Len(Levels(ev.c)) /\ InRange(ev.tab, Len(Levels(ev.c))) /\ IsGrayTable(ev.tab), "Gray coding of the constellation is not a Gray labelling">>,
           <<ev.out = [i \in 1..Len(ev.syms) |-> ev.tab[ev.syms[i] + 1]], "Gray coding is not symbol by symbol">>,
           <<ev.dec = ev.syms, "Gray decoding does not invert Gray coding">>,
           <<ev.shp = ev.ishp /\ ev.dshp = ev.ishp, "Gray coding changed the shape">> >>)]
    [] OTHER -> Bad(st, "unknown event")

(* ----------------------------------------------------------------- slicer -- *)
Nearest(x, lv) == {l \in SeqSet(lv) : \A m \in SeqSet(lv) : Abs(x - l) <= Abs(x - m)}
DefaultLevels(scale) == [i \in 1..4 |-> (2 * i - 5) * scale]
SliceOk(in, out, lv) ==
  LET L == SeqSet(lv) IN
  Len(out) = Len(in) /\ \A i \in 1..Len(in) : out[i] \in L /\ \A m \in L : Abs(in[i] - out[i]) <= Abs(in[i] - m)
SliceInit(cfg) == [x |-> 0]
SliceApply(cfg, st, ev) ==
  LET lv == IF Len(ev.lv) = 0 THEN DefaultLevels(cfg.scale) ELSE ev.lv IN
  [st |-> st, bad |-> First(<<
    <<ev.exc = "", "slicing raised " \o ev.exc>>,
    <<SliceOk(ev.in, ev.out, lv), "a decision is not a nearest level">>,
    <<ev.shp = ev.ishp, "slicing changed the shape">> >>)]

(* -------------------------------------------------------------- quantizer -- *)
(* all values times 2^16 >= 2^f: step = 2^(u-f) in units of 2^-u                *)
QLo(b, ty) == CASE ty = "u" -> 0 [] ty = "s" -> -Pow2(b - 1) [] ty = "ss" -> 1 - Pow2(b - 1)
QHi(b, ty) == CASE ty = "u" -> Pow2(b) - 1 [] ty = "s" -> Pow2(b - 1) - 1 [] ty = "ss" -> Pow2(b - 1) - 1
QStep(f, u) == Pow2(u - f)
QNearest(x, b, f, ty, u) == Nearest(x, [i \in 1..(QHi(b, ty) - QLo(b, ty) + 1) |-> (QLo(b, ty) + i - 1) * QStep(f, u)])
QuantOk(x, y, b, f, ty, u) ==
  LET s == QStep(f, u)
      lo == QLo(b, ty) * s
      hi == QHi(b, ty) * s
  IN  /\ y >= lo /\ y <= hi /\ y % s = 0
      /\ IF x <= lo THEN y = lo ELSE IF x >= hi THEN y = hi ELSE 2 * Abs(x - y) <= s
QuantInit(cfg) == [x |-> 0]
QuantApply(cfg, st, ev) ==
  CASE ev.op = "quant" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "quantization raised " \o ev.exc>>,
           <<Len(ev.out) = Len(ev.in), "quantization changed the length">>,
           <<\A i \in 1..Len(ev.in) : i <= Len(ev.out) => QuantOk(ev.in[i], ev.out[i], ev.b, ev.f, ev.ty, cfg.u), "a value is not rounded to the grid">>,
           <<ev.shp = ev.ishp, "quantization changed the shape">> >>)]
    [] ev.op = "reject" -> [st |-> st, bad |-> First(<< <<ev.exc # "", "an unknown type was accepted">> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
