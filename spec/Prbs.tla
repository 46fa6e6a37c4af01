-------------------------------- MODULE Prbs ---------------------------------
(* The PRBS source: a Fibonacci shift register.  State: seed, the last n bits *)
(* of the stream, newest first.                                               *)
EXTENDS Base

Taps(n) == CASE n = 7 -> {6, 7}
             [] n = 9 -> {5, 9}
             [] n = 11 -> {9, 11}
             [] n = 13 -> {1, 2, 12, 13}
             [] n = 15 -> {14, 15}
             [] n = 31 -> {28, 31}
Poly(n) == [i \in 1..n |-> IF i \in Taps(n) THEN 1 ELSE 0]
Named == {7, 9, 11, 13, 15, 31}

NextBit(poly, seed) == Dot2(poly, seed)
Shift(seed, b) == <<b>> \o SubSeq(seed, 1, Len(seed) - 1)

(* the stream and the state after n bits: [out, seed] *)
Gen(poly, seed, n) ==
  FoldLeft(LAMBDA acc, i : LET b == NextBit(poly, acc.seed)
                           IN  [out |-> Append(acc.out, b), seed |-> Shift(acc.seed, b)],
           [out |-> <<>>, seed |-> seed], Iota(n))

(* the same, stated on the stream: every bit obeys the recurrence over the    *)
(* history (seed, then stream) and the new seed is its end, newest first      *)
FollowsRecurrence(poly, seed, out) ==
  LET n == Len(poly)
      h == Rev(seed) \o out
      T == {j \in 1..n : poly[j] = 1}
  IN  \A i \in 1..Len(out) : out[i] = Cardinality({j \in T : h[n + i - j] = 1}) % 2
SeedAfter(seed, out) == Rev(LastN(Rev(seed) \o out, Len(seed)))

(* ---- trace events: a history of block and single-bit requests ------------ *)
(* cfg.poly, cfg.seed; st = [seed, prev]; op "gen": n, out, oseed; op "next": *)
(* out (one bit), oseed, oprev                                                *)
PrbsInit(cfg) == [seed |-> cfg.seed, prev |-> <<>>]

(* a whole-period request repeats the period: requires a named (maximal) type *)
PrbsApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, "call raised " \o ev.exc)
  ELSE CASE ev.op = "gen" ->
         LET bin == AllBin(ev.out)
             s   == IF bin THEN SeedAfter(st.seed, ev.out) ELSE st.seed IN
         [st |-> [seed |-> s, prev |-> <<>>],
          bad |-> First(<< <<Len(ev.out) = ev.n, "wrong number of bits">>,
                           <<bin, "output is not binary">>,
                           <<bin /\ FollowsRecurrence(cfg.poly, st.seed, ev.out), "generated bits do not follow the recurrence">>,
                           <<ev.oseed = s, "returned seed does not continue the stream">> >>)]
       [] ev.op = "next" ->
         LET b == NextBit(cfg.poly, st.seed)
             s == Shift(st.seed, b) IN
         [st |-> [seed |-> s, prev |-> st.seed],
          bad |-> First(<< <<ev.out = <<b>>, "iterator bit does not follow the recurrence">>,
                           <<ev.oseed = s, "iterator seed does not continue the stream">>,
                           <<ev.oprev = st.seed, "iterator previous seed is wrong">> >>)]
       [] ev.op = "poly" ->
         [st |-> st, bad |-> First(<< <<ev.out = Poly(ev.n), "tap table is not the standard polynomial">> >>)]
       [] OTHER -> Bad(st, "unknown event")
==============================================================================
