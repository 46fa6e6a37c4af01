------------------------------ MODULE ConvCode -------------------------------
(* Convolutional codes as shift-register machines.                             *)
(* C = [G, fb, uf]: G[i][j] taps from input i to output j, fb[i] the feedback  *)
(* polynomial of input i or <<>>, uf[i][j] = 1 when output j sees the register *)
(* after the feedback.  State: one register per input, newest bit first.       *)
EXTENDS Base
NIn(C) == Len(C.G)
NOut(C) == Len(C.G[1])
Mem(C, i) == Max2(Len(C.G[i][1]), Max2(1, Len(C.fb[i]))) - 1
Zero(C) == [i \in 1..NIn(C) |-> Zeros(Mem(C, i))]
States(C) == LET f[i \in 0..NIn(C)] == IF i = 0 THEN {<<>>}
                                       ELSE {Append(s, r) : s \in f[i - 1], r \in [1..Mem(C, i) -> Bit]} IN f[NIn(C)]
Ins(C) == [1..NIn(C) -> Bit]
DotP(taps, word) == FoldLeft(LAMBDA acc, k : acc + taps[k] * word[k], 0, Iota(Min2(Len(taps), Len(word)))) % 2
(* the bit entering register i *)
Enter(C, s, x, i) == IF Len(C.fb[i]) = 0 THEN x[i]
                     ELSE (x[i] + DotP(Drop(C.fb[i], 1), s[i])) % 2
Word(C, s, x, i) == <<Enter(C, s, x, i)>> \o s[i]
OutBit(C, s, x, j) ==
  Sum([i \in 1..NIn(C) |-> IF Len(C.fb[i]) > 0 /\ C.uf[i][j] = 0 THEN x[i] * C.G[i][j][1]
                           ELSE DotP(C.G[i][j], Word(C, s, x, i))]) % 2
CStep(C, s, x) == [s |-> [i \in 1..NIn(C) |-> SubSeq(Word(C, s, x, i), 1, Mem(C, i))],
                   out |-> [j \in 1..NOut(C) |-> OutBit(C, s, x, j)]]
InVec(C, bits, t) == [i \in 1..NIn(C) |-> LET p == (t - 1) * NIn(C) + i IN IF p <= Len(bits) THEN bits[p] ELSE 0]
Steps(C, bits) == CeilDiv(Len(bits), NIn(C))
ConvFrom(C, s0, bits) ==
  FoldLeft(LAMBDA a, t : LET r == CStep(C, a.s, InVec(C, bits, t)) IN [s |-> r.s, out |-> a.out \o r.out],
           [s |-> s0, out |-> <<>>], Iota(Steps(C, bits)))
Conv(C, bits) == ConvFrom(C, Zero(C), bits).out
IsConv(C, bits, out) ==
  /\ Len(out) = Steps(C, bits) * NOut(C)
  /\ FoldLeft(LAMBDA a, t : LET r == CStep(C, a.s, InVec(C, bits, t))
                            IN  [s |-> r.s, ok |-> a.ok /\ SubSeq(out, (t - 1) * NOut(C) + 1, t * NOut(C)) = r.out],
              [s |-> Zero(C), ok |-> TRUE], Iota(Steps(C, bits))).ok

(* --------------------------------------------------------------- decoding -- *)
CMin(S) == CHOOSE x \in S : \A y \in S : x <= y
(* cost to go by dynamic programming over the trellis, last chunk first *)
Best(C, rx) ==
  LET n == NOut(C)
      nc == Len(rx) \div n
      S == States(C)
      T == [s \in S |-> [x \in Ins(C) |-> CStep(C, s, x)]]
      f == FoldLeft(LAMBDA acc, t : LET chunk == SubSeq(rx, (nc - t) * n + 1, (nc - t + 1) * n) IN
                       [s \in S |-> CMin({HammingDist(T[s][x].out, chunk) + acc[T[s][x].s] : x \in Ins(C)})],
                    [s \in S |-> 0], Iota(nc))
  IN  CMin({f[s] : s \in S})
(* distance of the best path with a given input *)
InputDist(C, u, rx) == CMin({HammingDist(ConvFrom(C, s, u).out, rx) : s \in States(C)})
PathOk(C, rx, tb, out) ==
  LET nb == Len(rx) \div tb
      m == NIn(C) * (tb \div NOut(C)) IN
  /\ Len(out) = nb * m /\ AllBin(out)
  /\ \A i \in 1..nb : LET r == SubSeq(rx, (i - 1) * tb + 1, i * tb) IN
                        InputDist(C, SubSeq(out, (i - 1) * m + 1, i * m), r) = Best(C, r)

(* ---- what the decoders report beside the data ---- *)
(* least distance of a path into every state (viterbi), -1 if there is none; the state is the registers one after the other *)
EndDist(C, rx) ==
  LET n == NOut(C)
      S == States(C)
      T == [s \in S |-> [x \in Ins(C) |-> CStep(C, s, x)]]
      E == {<<s, x>> : s \in S, x \in Ins(C)}
      into == [q \in S |-> {e \in E : T[e[1]][e[2]].s = q}]
  IN  FoldLeft(LAMBDA acc, t : LET chunk == SubSeq(rx, (t - 1) * n + 1, t * n)
                                   c(q) == {HammingDist(T[e[1]][e[2]].out, chunk) + acc[e[1]] : e \in {z \in into[q] : acc[z[1]] >= 0}} IN
                       [q \in S |-> IF c(q) = {} THEN -1 ELSE CMin(c(q))],
                    [s \in S |-> 0], Iota(Len(rx) \div n))
BestEnds(C, rx) == LET f == EndDist(C, rx)  R == {q \in States(C) : f[q] >= 0}  m == CMin({f[q] : q \in R}) IN {q \in R : f[q] = m}
RDiv(a, b) == (2 * a + b) \div (2 * b)
Cat(m) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, m)
StateIdx(q) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, Cat(q))
(* end states of the best paths with a given input *)
PathEnds(C, u, rx) == LET d == InputDist(C, u, rx) IN {ConvFrom(C, s, u).s : s \in {z \in States(C) : HammingDist(ConvFrom(C, z, u).out, rx) = d}}
(* number of (starting state, input) pairs at the least distance (ml) *)
NearestCount(C, rx) ==
  LET m == NIn(C) * (Len(rx) \div NOut(C))
      W == {<<s, u>> : s \in States(C), u \in [1..m -> Bit]}
      d == Best(C, rx) IN
  <<d, Cardinality({w \in W : HammingDist(ConvFrom(C, w[1], w[2]).out, rx) = d})>>

ConvInit(cfg) == [x |-> 0]
ConvApply(cfg, st, ev) ==
  CASE ev.op = "enc" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "convolutional encoding raised " \o ev.exc>>,
           <<AllBin(ev.out), "encoder output is not binary">>,
           <<IsConv(cfg, ev.in, ev.out), "encoder output is not that of the shift registers">> >>)]
    [] ev.op = "dec" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", ev.by \o " decoding raised " \o ev.exc>>,
           <<PathOk(cfg, ev.rx, ev.tb, ev.out), ev.by \o ": a decoded block is not a nearest path">> >>)]
    [] ev.op = "rep" ->     \* reported uncertainty per block (millionths) and final state of the last block
         LET nb == Len(ev.rx) \div ev.tb
             blk(i) == SubSeq(ev.rx, (i - 1) * ev.tb + 1, i * ev.tb)
             m == NIn(cfg) * (ev.tb \div NOut(cfg))
             want(i) == IF ev.by = "ml" THEN (LET c == NearestCount(cfg, blk(i)) IN IF c[1] = 0 THEN 0 ELSE RDiv(1000000, c[2]))
                        ELSE (LET c == Cardinality(BestEnds(cfg, blk(i))) IN IF c = 1 THEN 0 ELSE RDiv(1000000, c)) IN
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", ev.by \o " decoding raised " \o ev.exc>>,
           <<Len(ev.p) = nb, ev.by \o ": not one error probability per block">>,
           <<\A i \in 1..nb : i <= Len(ev.p) => Abs(ev.p[i] - want(i)) <= 1, ev.by \o ": a reported error probability is wrong">>,
           <<ev.by = "ml" \/ ev.last \in {StateIdx(q) : q \in BestEnds(cfg, blk(nb))}, ev.by \o ": the final state is not one of a nearest path">>,
           <<ev.by = "ml" \/ Len(ev.out) < nb * m \/ ev.last \in {StateIdx(q) : q \in PathEnds(cfg, SubSeq(ev.out, (nb - 1) * m + 1, nb * m), blk(nb))},
             ev.by \o ": the final state is not where the decoded path ends">> >>)]
    [] ev.op = "clean" ->  \* a noise-free message whose nearest path is unique (the driver's claim is rechecked)
         LET m == Len(ev.in)
             uniq == \A u \in [1..m -> Bit] : u # ev.in => InputDist(cfg, u, ev.rx) > 0 IN
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", ev.by \o " decoding raised " \o ev.exc>>,
           <<uniq => ev.out = ev.in, ev.by \o ": a noise-free message was not recovered">> >>)]
    [] ev.op = "conf" ->   \* a configuration as given: hasfb = 1 when feedback polynomials are passed, uf = <<>> when none is
         LET sized == Len(ev.uf) = Len(ev.G) /\ \A i \in 1..Len(ev.uf) : Len(ev.uf[i]) = Len(ev.G[1])
             ok == ev.hasfb = 0 \/ (sized /\ \A i \in 1..Len(ev.G), j \in 1..Len(ev.G[1]) :
                     /\ (ev.uf[i][j] = 1 => ev.fb[i] # <<>>)
                     /\ (ev.uf[i][j] = 0 /\ ev.fb[i] # <<>> => \A k \in 2..Len(ev.G[i][j]) : ev.G[i][j][k] = 0)) IN
         [st |-> st, bad |-> First(<<
           <<ok \/ ev.exc # "", ev.by \o ": an inconsistent feedback configuration was accepted">>,
           <<ok \/ ev.exc = "ValueError", ev.by \o ": an inconsistent feedback configuration ended in " \o ev.exc>>,
           <<~ok \/ ev.exc = "", ev.by \o ": a consistent configuration was refused with " \o ev.exc>> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
