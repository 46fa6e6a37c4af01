------------------------------- MODULE MC_Link -------------------------------
(* every schedule of framing and chunked transport, over chain configurations  *)
EXTENDS Link, TLC, Json
CONSTANTS Opts, Seeds, Frames, FB, Chunks, MaxSch
VARIABLES o, s0, seed, fr, q, sent, decs, sch
vars == <<o, s0, seed, fr, q, sent, decs, sch>>

F0 == [ord |-> 0, msb |-> 0, lsb |-> 0, pn |-> 0]
F1 == [ord |-> 1, msb |-> 1, lsb |-> 0, pn |-> 1]
F2 == [ord |-> 1, msb |-> 0, lsb |-> 1, pn |-> 0]
F3 == [ord |-> 0, msb |-> 0, lsb |-> 0, pn |-> 1]
Bases == {[code |-> cd, k |-> kc[1], c |-> kc[2]] : cd \in {"none", "diff", "man", "dman", "conv"}, kc \in {<<1, "NRZ">>, <<1, "OOK">>, <<2, "PAM4">>}}
         \union {[code |-> "lin", k |-> 1, c |-> x] : x \in {"NRZ", "OOK"}}
         \union {[code |-> x, k |-> 1, c |-> "PAM3"] : x \in {"bip", "mlt3"}}
H1 == <<8>>  H2 == <<8, 3>>  H3 == <<6, -5, 4>>  H4 == <<8, 6, -5, 2>>
Prof(b, sd, g, pn, h, f, w) ==
  [n |-> 7, code |-> b.code, k |-> b.k, f |-> IF b.k = 1 THEN [F0 EXCEPT !.pn = f.pn] ELSE f, sdiff |-> sd,
   gray |-> IF b.c = "PAM3" THEN 0 ELSE g, c |-> b.c, pn |-> pn, h |-> h, dist |-> w]
OptsQ == UNION {{Prof(b, 0, 0, 0, H1, F0, 0), Prof(b, 1, 0, 1, H2, F1, 1), Prof(b, 0, 1, 0, H3, F2, 1),
                 Prof(b, 1, 1, 1, H4, F3, 0), Prof(b, 1, 1, 0, H3, F1, 1), Prof(b, 0, 1, 1, H4, F3, 1)} : b \in Bases}
OptsT == UNION {{Prof(b, sd, g, pn, h, f, 1) : sd \in Bit, g \in Bit, pn \in Bit, h \in {H2, H3, H4}, f \in {F0, F1, F2, F3}} : b \in Bases}
SeedsQ == {<<1, 1, 1, 1, 1, 1, 1>>, <<0, 1, 1, 0, 0, 1, 0>>}

Init == /\ o \in Opts /\ s0 \in Seeds /\ seed = s0
        /\ fr = <<>> /\ q = <<>> /\ sent = <<>> /\ decs = <<>> /\ sch = <<>>
Tx == /\ Len(fr) < Frames
      /\ LET g == PR!Gen(PR!Poly(o.n), seed, FB) IN
         /\ seed' = g.seed /\ fr' = Append(fr, g.out) /\ q' = q \o TxLevels(o, g.out)
      /\ sch' = Append(sch, 0) /\ UNCHANGED <<o, s0, sent, decs>>
WMax == ((o.h[1] * Spacing(o.c)) - 1) \div 2
Dist(i) == IF o.dist = 0 THEN 0 ELSE IF i % 3 = 0 THEN 0 ELSE IF i % 3 = 1 THEN WMax ELSE -WMax
Pass(a, x) == [s |-> Append(a.s, x), d |-> Append(a.d, Decide(o, a.s, a.d, x, Dist(Len(a.s))))]
Mv(n) == /\ n <= Len(q) /\ n > 0
         /\ LET r == FoldLeft(Pass, [s |-> sent, d |-> decs], SubSeq(q, 1, n)) IN sent' = r.s /\ decs' = r.d
         /\ q' = Drop(q, n) /\ sch' = Append(sch, n) /\ UNCHANGED <<o, s0, seed, fr>>
Next == Tx \/ (\E n \in Chunks : Len(sch) < MaxSch /\ Mv(n)) \/ Mv(Len(q))
Spec == Init /\ [][Next]_vars

SafeW == Safe(o, WMax)
InOrder == decs = sent
Wave == [i \in 1..Len(fr) |-> TxLevels(o, fr[i])]
Conserve == FlatSeq(Wave) = sent \o q
Invertible == \A i \in 1..Len(fr) : RxBits(o, Wave[i]) = fr[i]
Done == Len(fr) = Frames /\ q = <<>>
Delivered == Done => LET n == Len(Wave[1]) IN
               \A i \in 1..Len(fr) : RxBits(o, SubSeq(decs, (i - 1) * n + 1, i * n)) = fr[i]
Emit == IF Done THEN PrintT("@@" \o ToJson([o |-> o, sch |-> sch, fr |-> fr, lv |-> sent,
                       seed |-> s0, oseed |-> seed])) ELSE TRUE
==============================================================================
