------------------------------ MODULE BlockCode ------------------------------
(* Linear block codes over GF(2): G is a sequence of k rows of n bits.         *)
EXTENDS Base
K(G) == Len(G)
N(G) == Len(G[1])
Col(G, j) == [i \in 1..K(G) |-> G[i][j]]
Codeword(G, u) == [j \in 1..N(G) |-> Dot2(u, Col(G, j))]
Msgs(G) == [1..K(G) -> Bit]
Xor(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
Weight(a) == Cardinality({i \in 1..Len(a) : a[i] = 1})
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Injective1(G) == \A u \in Msgs(G) : Weight(u) > 0 => Weight(Codeword(G, u)) > 0
DMin(G) == SMin({Weight(Codeword(G, u)) : u \in {x \in Msgs(G) : Weight(x) > 0}})
BestDist(G, rx) == SMin({HammingDist(Codeword(G, u), rx) : u \in Msgs(G)})
NearestMsgs(G, rx) == LET d == BestDist(G, rx) IN {u \in Msgs(G) : HammingDist(Codeword(G, u), rx) = d}

PadTo(bits, k) == bits \o Zeros((k - (Len(bits) % k)) % k)
Blk(s, n, i) == SubSeq(s, (i - 1) * n + 1, i * n)
EncodeOk(G, bits, out) ==
  LET p == PadTo(bits, K(G))
      nb == Len(p) \div K(G) IN
  /\ Len(out) = nb * N(G)
  /\ \A i \in 1..nb : Blk(out, N(G), i) = Codeword(G, Blk(p, K(G), i))
(* perr: reliability times 720720 *)
DecodeOk(G, rx, out) ==
  LET nb == Len(rx) \div N(G) IN
  /\ Len(out) = nb * K(G) /\ AllBin(out)
  /\ \A i \in 1..nb : HammingDist(Codeword(G, Blk(out, K(G), i)), Blk(rx, N(G), i)) = BestDist(G, Blk(rx, N(G), i))
PerrOk(G, rx, perr) ==
  LET nb == Len(rx) \div N(G) IN
  /\ Len(perr) = nb
  /\ Injective1(G) => \A i \in 1..nb :
       IF BestDist(G, Blk(rx, N(G), i)) = 0 THEN perr[i] = 0
       ELSE LET c == Cardinality(NearestMsgs(G, Blk(rx, N(G), i))) IN Abs(perr[i] * c - 720720) <= c
BlockInit(cfg) == [x |-> 0]
BlockApply(cfg, st, ev) ==
  CASE ev.op = "enc" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "block encoding raised " \o ev.exc>>,
           <<EncodeOk(cfg.G, ev.in, ev.out), "encoded blocks are not message times generator">> >>)]
    [] ev.op = "dec" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "block decoding raised " \o ev.exc>>,
           <<DecodeOk(cfg.G, ev.rx, ev.out), "a decoded block is not at minimal distance">>,
           <<ev.perr = 0 \/ PerrOk(cfg.G, ev.rx, ev.pe), "the reliability output is wrong">> >>)]
    [] ev.op = "fix" ->     \* sent: the message; rx within half the minimum distance of its codeword
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "block decoding raised " \o ev.exc>>,
           <<ev.out = ev.in, "a correctable error pattern was not corrected">> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
