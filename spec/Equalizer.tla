------------------------------ MODULE Equalizer ------------------------------
(* Decision feedback equalizer.  Integers: inputs and levels in units 1/Sx,    *)
(* taps in units 1/St, outputs in units 1/(Sx St).                             *)
(* cfg: f (forward taps), d (feedback taps), lv (levels), osr, phase, St       *)
(* state: xs the latest Len(f)-1 inputs, oldest first; dec the latest Len(d)   *)
(* decisions, newest first; n samples done; ys the outputs of the last symbol  *)
EXTENDS Base
EqStart(cfg) == [xs |-> cfg.xs0, dec |-> cfg.dec0, n |-> 0, ys |-> <<>>]
NearestLv(y, lv, St) == CHOOSE l \in SeqSet(lv) : \A m \in SeqSet(lv) : Abs(y - l * St) <= Abs(y - m * St)
Forward(f, w) == FoldLeft(LAMBDA acc, i : acc + f[i] * w[Len(w) + 1 - i], 0, Iota(Len(f)))
(* one sample *)
EqStep(cfg, s, x) ==
  LET w == Append(s.xs, x)
      y == Forward(cfg.f, w) - (IF Len(cfg.d) = 0 THEN 0 ELSE Dot(cfg.d, s.dec))
      ys == LastN(Append(s.ys, y), cfg.osr)
      h == cfg.osr \div 2
      \* the decision of the sample at the selected phase is fed back half a symbol later
      due == s.n - h >= 0 /\ (s.n - h) % cfg.osr = cfg.phase
      dec == IF Len(cfg.d) > 0 /\ due
             THEN SubSeq(<<NearestLv(ys[Len(ys) - h], cfg.lv, cfg.St)>> \o s.dec, 1, Len(cfg.d))
             ELSE s.dec
  IN  [y |-> y, s |-> [xs |-> LastN(w, Len(cfg.f) - 1), dec |-> dec, n |-> s.n + 1, ys |-> ys]]
EqRun(cfg, s, xs) ==
  FoldLeft(LAMBDA a, x : LET r == EqStep(cfg, a.s, x) IN [s |-> r.s, out |-> Append(a.out, r.y)], [s |-> s, out |-> <<>>], xs)
(* returned memories: zf the latest inputs (one more is allowed), zd the decisions *)
MemOk(zf, before, xs, k) == /\ Len(zf) \in {k - 1, k}
                            /\ zf = LastN(before \o xs, Len(zf))
EqInit(cfg) == EqStart(cfg)
EqApply(cfg, st, ev) ==
  CASE ev.op = "eq" ->
         LET r == EqRun(cfg, st, ev.x) IN
         [st |-> r.s,
          bad |-> First(<<
            <<ev.exc = "", "equalizing raised " \o ev.exc>>,
            <<Len(ev.y) = Len(ev.x), "the number of outputs differs">>,
            <<ev.y = r.out, "an output does not obey the difference equation">>,
            <<ev.hasf = 0 \/ MemOk(ev.zf, st.xs, ev.x, Len(cfg.f)), "the forward memory is not the latest inputs">>,
            <<ev.hasd = 0 \/ ev.zd = r.s.dec, "the decision memory is not the latest decisions">> >>)]
    [] ev.op = "refuse" -> [st |-> st, bad |-> First(<< <<ev.exc # "", "a memory of a wrong size was accepted">> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
