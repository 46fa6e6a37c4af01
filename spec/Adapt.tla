------------------------------- MODULE Adapt ---------------------------------
(* The example receiver's adaptation: clock phase, taps and digital gain while *)
(* converging, the two loops' stop conditions, the simulation's record.        *)
EXTENDS Base
CD == INSTANCE Cdr
LM == INSTANCE Lms

(* ------------------------------------------------------------- control ----- *)
Idle == [conv |-> 0, cdr |-> 0, lms |-> 0, done |-> 0]
Begun(s) == [conv |-> 1, cdr |-> 1, lms |-> 1, done |-> 0]
(* one chunk with timing step `step`; settled = 1 when the error stopped changing *)
Control(s, step, settled) ==
  IF s.conv = 0 THEN s
  ELSE LET c == IF s.cdr = 1 /\ step = 0 THEN 0 ELSE s.cdr
           l == IF s.lms = 1 /\ settled = 1 THEN 0 ELSE s.lms
       IN  [conv |-> IF c + l = 0 THEN 0 ELSE 1, cdr |-> c, lms |-> l, done |-> IF c + l = 0 THEN 1 ELSE s.done]
PhaseAfter(s, phase, step, osr) == IF s.conv = 1 /\ s.cdr = 1 THEN (phase + step) % osr ELSE phase
(* input samples in step with the equalizer outputs, which lag by the precursors *)
Aligned(last, adc, pre) == IF pre = 0 THEN adc ELSE LastN(last, pre) \o Take(adc, Len(adc) - pre)
Sampled(x, phase, osr) == [i \in 1..(Len(x) \div osr) |-> x[phase + 1 + (i - 1) * osr]]

(* -------------------------------------------------------------- traces ----- *)
(* cfg = [osr, pre, fi, di, lv, c, pow, k]; samples and levels in 1/64, slicer  *)
(* inputs in 1/256                                                             *)
S == 4                                     \* slicer-input units per sample unit
AdInit(cfg) == [s |-> Idle, phase |-> cfg.phase, last |-> <<>>, mse |-> 1000000000, adc |-> <<>>, dec |-> <<>>, bits |-> <<>>,
                phs |-> <<>>, mses |-> <<>>, taps |-> <<>>, n |-> 0, cur |-> cfg.taps]
(* decisions allowed for y (1/256): levels nearest up to the rounding of y *)
Near(y, lv) == {l \in SeqSet(lv) : \A m \in SeqSet(lv) : Abs(y - S * l) <= Abs(y - S * m) + 2}
Clear(y, lv) == \A i \in 1..Len(y) : Cardinality(Near(y[i], lv)) = 1
Decided(y, lv) == [i \in 1..Len(y) |-> S * CHOOSE l \in SeqSet(lv) : l \in Near(y[i], lv)]
AbsSum(z) == Sum([i \in 1..Len(z) |-> Abs(z[i])])
SqS(z) == Sum([i \in 1..Len(z) |-> z[i] * z[i]])
Flags(s) == <<s.conv, s.cdr, s.lms, s.done>>
Thr == 10000                               \* a hundredth, in 10^-6
ChunkApply(cfg, st, ev) ==
  LET N   == Len(ev.adc)
      s   == st.s
      x   == Force(Aligned(st.last, ev.adc, cfg.pre))
      D   == CD!Diff(x, ev.dec, 1, 1)
      ps  == {PhaseAfter(s, st.phase, p, cfg.osr) : p \in CD!Steps(D, N, 4096, 1, 1000)}
      stp == CHOOSE p \in CD!Steps(D, N, 4096, 1, 1000) : PhaseAfter(s, st.phase, p, cfg.osr) = ev.phase
      dm  == Abs(ev.mse - st.mse)
      \* rounding decides on the edge of the threshold
      set == IF dm < Thr - 2 THEN {1} ELSE IF dm > Thr + 2 THEN {0} ELSE {0, 1}
      act == s.conv = 1 /\ s.lms = 1
      clr == Clear(ev.gy, cfg.lv)
      r   == IF clr THEN Force(Decided(ev.gy, cfg.lv)) ELSE <<>>
      e   == IF clr THEN Force([i \in 1..N |-> ev.gy[i] - r[i]]) ELSE <<>>
      zero == \A i \in 1..Len(ev.gf) : ev.gf[i] = 0
      zerd == \A i \in 1..Len(ev.gd) : ev.gd[i] = 0
      ok1 == /\ Len(ev.dec) = N /\ Len(ev.y) = N /\ Len(ev.gy) = N /\ N * cfg.osr = Len(ev.ct)
             /\ Len(ev.gf) = Len(cfg.fi) /\ Len(ev.gd) = Len(cfg.di)
      ok2 == ok1 /\ (IF s.conv = 1 /\ s.cdr = 1 THEN ev.phase \in ps ELSE ev.phase = st.phase)
      new == IF s.conv = 1 /\ ok2 THEN {Control(s, IF s.cdr = 1 THEN stp ELSE 1, z) : z \in IF act THEN set ELSE {0}} ELSE {s}
  IN [st |-> [st EXCEPT !.s = [conv |-> ev.fl[1], cdr |-> ev.fl[2], lms |-> ev.fl[3], done |-> ev.fl[4]], !.phase = ev.phase, !.last = ev.adc, !.mse = ev.mse,
                        !.cur = ev.taps],
      bad |-> IF ~ok1 THEN "a stage of the receiver has the wrong number of samples" ELSE First(<<
        \* 1/64 of a converter step
        <<\A i \in 1..N : Abs(64 * ev.adc[i] - Sampled(ev.ct, st.phase, cfg.osr)[i]) <= 33, "the converter does not sample at the phase">>,
        <<\A i \in 1..N : ev.dec[i] \in Near(ev.y[i], cfg.lv), "the decision is not the nearest level">>,
        <<ok2, "the phase does not move by the timing step">>,
        <<[conv |-> ev.fl[1], cdr |-> ev.fl[2], lms |-> ev.fl[3], done |-> ev.fl[4]] \in new, "the loops do not stop when they settle">>,
        <<IF s.conv = 1 THEN Abs(ev.dg - (cfg.pow - SqS(ev.y) \div N)) <= (AbsSum(ev.y) \div N) + 4 ELSE ev.dg = 0, "the gain does not follow the missing power">>,
        <<act \/ (zero /\ zerd /\ ev.mse = st.mse), "taps move outside the tap loop">>,
        <<~act \/ ~clr \/ Abs(ev.msen - SqS(e)) <= AbsSum(e) + N, "the error is not the mean squared one">>,
        <<~act \/ ~clr \/ \A k \in 1..Len(cfg.fi) : Abs(ev.gf[k] - LM!CorrAt(e, x, cfg.fi[k])) <= AbsSum(x) + 4, "a forward tap does not move against its gradient">>,
        <<~act \/ ~clr \/ \A k \in 1..Len(cfg.di) : Abs(ev.gd[k] + LM!CorrAt(e, r, cfg.di[k])) <= AbsSum(r) + 4, "a feedback tap does not move against its gradient">> >>)]
(* the equalizer's description: lengths of the vectors given, -1 for none; the levels are needed with feedback taps *)
Fits(n, want) == n \in {-1, want}
SizeApply(st, ev) ==
  LET nf == ev.pre + ev.post + 1
      ok == Fits(ev.fl, nf) /\ Fits(ev.dl, ev.nd) /\ Fits(ev.zfl, nf) /\ Fits(ev.zdl, ev.nd) /\ (ev.nd = 0 \/ ev.haslv = 1) IN
  Bad(st, First(<<
    <<ok \/ ev.exc # "", "an equalizer description of the wrong size was accepted">>,
    <<~ok \/ ev.exc = "", "a fitting equalizer description was refused with " \o ev.exc>>,
    <<ev.exc # "" \/ ev.lens = <<nf, ev.nd, nf, ev.nd>>, "the equalizer's vectors do not have the described sizes">> >>))
(* exchanging the taps of an equalizer: before, given and afterwards; all or nothing *)
SetApply(st, ev) == Bad(st, First(<<
    <<Len(ev.new) = Len(ev.old) \/ (ev.exc # "" /\ ev.now = ev.old), "taps of the wrong size were taken over">>,
    <<Len(ev.new) # Len(ev.old) \/ (ev.exc = "" /\ ev.now = ev.new), "new taps were not taken over">>,
    <<ev.other0 = ev.other1, "the other taps changed as well">> >>))
AdApply(cfg, st, ev) ==
  IF ev.op = "size" THEN SizeApply(st, ev)
  ELSE IF ev.op = "set" THEN SetApply(st, ev)
  ELSE IF ev.exc # "" THEN Bad(st, ev.op \o " raised " \o ev.exc)
  ELSE CASE ev.op = "begin" -> [st |-> [st EXCEPT !.s = Begun(@)],
                                bad |-> First(<< <<ev.fl = Flags(Begun(st.s)) /\ ev.phase = st.phase /\ ev.taps = st.cur, "starting does not just open both loops">> >>)]
    [] ev.op = "chunk" -> ChunkApply(cfg, st, ev)
    [] ev.op = "gather" -> Good([st EXCEPT !.adc = @ \o ev.adc, !.dec = @ \o ev.dec, !.bits = @ \o ev.bits, !.phs = Append(@, st.phase),
                                           !.mses = Append(@, st.mse), !.taps = Append(@, st.cur), !.n = @ + 1])
    [] ev.op = "reset" -> [st |-> [st EXCEPT !.adc = <<>>, !.dec = <<>>, !.bits = <<>>, !.phs = <<>>, !.mses = <<>>, !.taps = <<>>, !.n = 0],
                           bad |-> First(<< <<\A i \in 1..Len(ev.lens) : ev.lens[i] = 0, "resetting leaves a record">> >>)]
    [] ev.op = "record" -> Bad(st, First(<<
         <<\A i \in 1..Len(ev.lens) : ev.lens[i] = st.n, "not one record per chunk">>,
         <<ev.adc = st.adc, "the converter record is not what was sampled">>,
         <<ev.dec = st.dec, "the decision record is not what was decided">>,
         <<ev.bits = st.bits, "the bit record is not what was sent">>,
         <<ev.phs = st.phs, "the phase record is not the history">>,
         <<ev.mses = st.mses, "the error record is not the history">>,
         <<ev.taps = st.taps, "the tap record is not the history">>,
         <<ev.same = 1, "a recorded stage differs from the stage's output">> >>))
    [] ev.op = "config" -> Bad(st, First(<< <<ev.taps = cfg.taps, "adaptation changed the caller's configuration">> >>))
    [] ev.op = "run" -> Bad(st, First(<<                       \* a whole convergence: flags, recorded chunks
         <<ev.fl = <<0, 0, 0, 1>>, "convergence returned before both loops stopped">>,
         <<ev.n >= 1 /\ ev.n = Len(ev.phs) /\ ev.n \in {ev.made, ev.made - 1}, "the record does not cover the convergence">>,
         <<\A i \in 1..(Len(ev.phs) - 1) : ((ev.phs[i + 1] - ev.phs[i]) % cfg.osr) \in {0, 1, cfg.osr - 1}, "the phase jumped">> >>))
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
