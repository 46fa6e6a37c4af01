-------------------------------- MODULE Lock ---------------------------------
(* Alignment of a cyclic pattern with a signal by correlation.                 *)
EXTENDS Base
Nrz(b) == [i \in 1..Len(b) |-> 2 * b[i] - 1]
(* correlation of the signal's first min(P, D) samples with the pattern repeated twice, offset k = 0.. *)
Used(pat, sig) == Min2(Len(pat), Len(sig))
At0(pat, i) == pat[(i % Len(pat)) + 1]
Corr(pat, sig, k) == FoldLeft(LAMBDA acc, i : acc + At0(pat, k + i - 1) * sig[i], 0, Iota(Used(pat, sig)))
Offsets(pat, sig) == 2 * Len(pat) - Used(pat, sig) + 1
IsMax(pat, sig, k) == LET c == Corr(pat, sig, k) IN \A j \in 0..(Len(pat) - 1) : Corr(pat, sig, j) <= c
(* the only rotation (as a sequence) with maximal correlation, if there is only one *)
Best(pat, sig) == {Rotate(pat, k) : k \in {j \in 0..(Len(pat) - 1) : IsMax(pat, sig, j)}}
SinglePeak(pat) == \A k \in 1..(Len(pat) - 1) : Corr(pat, pat, k) < Corr(pat, pat, 0)
(* long patterns that are mostly zero: pp, sp list <<position, value>> (from 0) of what is not zero *)
SpCorr(pp, sp, P, k) == FoldLeft(LAMBDA acc, j : acc + FoldLeft(LAMBDA a, i : IF (k + sp[j][1]) % P = pp[i][1] THEN a + pp[i][2] * sp[j][2] ELSE a, 0, Iota(Len(pp))),
                                 0, Iota(Len(sp)))
SpShift(pp, P, k) == {<<(pp[i][1] + P - k) % P, pp[i][2]>> : i \in 1..Len(pp)}
SparseApply(st, ev) ==
  LET P == ev.P  U == Min2(P, ev.D)  n == 2 * P - U + 1
      sp == SelectSeq(ev.sp, LAMBDA z : z[1] < U)
      K == {(ev.pp[i][1] + P - (sp[j][1] % P)) % P : i \in 1..Len(ev.pp), j \in 1..Len(sp)}
      (* binary: the sum of (2p-1)(2s-1), the signal covers the pattern *)
      lift(c) == IF ev.bin = 1 THEN 4 * c - 2 * Len(ev.pp) - 2 * Len(sp) + P ELSE c
      c == [k \in K |-> SpCorr(ev.pp, sp, P, k)]
      want == {<<k, lift(c[k])>> : k \in {z \in K : c[z] # 0}} \cup {<<k + P, lift(c[k])>> : k \in {z \in K : c[z] # 0 /\ z + P < n}}
      S == {c[k] : k \in K} \cup (IF Cardinality(K) < P THEN {0} ELSE {})
      m == CHOOSE x \in S : \A y \in S : y <= x
      kept(k) == (IF k \in K THEN c[k] ELSE 0) = m
  IN  Bad(st, First(<<
        <<ev.n = n, "the correlation does not have one entry per candidate offset">>,
        <<ev.base = lift(0) /\ SeqSet(ev.xc) = want, "a correlation value is wrong">>,
        <<ev.len = P, "the locked pattern has another length">>,
        <<\E k \in K \cup (IF ev.got >= 0 THEN {ev.got} ELSE {}) : kept(k) /\ SeqSet(ev.out) = SpShift(ev.pp, P, k), "the locked pattern is not the pattern at a maximum of the correlation">>,
        <<ev.rot < 0 \/ SeqSet(ev.out) = SpShift(ev.pp, P, ev.rot), "the locked pattern does not line up with the signal">> >>))
LockInit(cfg) == [x |-> 0]
(* ev.pat, ev.sig integers; ev.bin = 1 for the binary function; ev.out, ev.xc the results; *)
(* ev.rot >= 0: the signal is known to be the pattern rotated by rot, repeated, with few errors *)
LockApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, "locking raised " \o ev.exc)
  ELSE IF ev.op = "sparse" THEN SparseApply(st, ev)
  ELSE LET p == IF ev.bin = 1 THEN Nrz(ev.pat) ELSE ev.pat
           s == IF ev.bin = 1 THEN Nrz(ev.sig) ELSE ev.sig
           n == Offsets(p, s)
           c == [k \in 1..Len(p) |-> Corr(p, s, k - 1)]
           m == MaxOf(c)
       IN  Bad(st, First(<<
             <<Len(ev.xc) = n, "the correlation does not have one entry per candidate offset">>,
             <<Len(ev.xc) # n \/ \A k \in 1..n : ev.xc[k] = c[((k - 1) % Len(p)) + 1], "a correlation value is wrong">>,
             <<Len(ev.out) = Len(ev.pat), "the locked pattern has another length">>,
             <<\E k \in 1..Len(p) : c[k] = m /\ ev.out = Rotate(ev.pat, k - 1), "the locked pattern is not the pattern at a maximum of the correlation">>,
             <<ev.rot < 0 \/ ev.out = Rotate(ev.pat, ev.rot), "the locked pattern does not line up with the signal">> >>))
==============================================================================
