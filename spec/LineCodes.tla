------------------------------ MODULE LineCodes ------------------------------
(* Line codes as machines: one input symbol per step, W(code) output chips.    *)
EXTENDS Base

Codes == {"diff", "man", "bip", "mlt3", "dman"}
W(code) == IF code \in {"man", "dman"} THEN 2 ELSE 1
(* machine state: diff: running sum; bip: number of marks mod 2; mlt3: position *)
(* in the cycle 0,1,2,1; dman: level of the last chip                          *)
Start(code) == IF code = "dman" THEN 1 ELSE 0
Mlt == <<0, 1, 2, 1>>
Step(code, m, s, x) ==
  CASE code = "diff" -> [s |-> (s + x) % m, out |-> <<(s + x) % m>>]
    [] code = "man"  -> [s |-> 0, out |-> IF x = 1 THEN <<1, 0>> ELSE <<0, 1>>]
    [] code = "bip"  -> IF x = 0 THEN [s |-> s, out |-> <<1>>] ELSE [s |-> 1 - s, out |-> <<2 * s>>]
    [] code = "mlt3" -> LET p == (s + x) % 4 IN [s |-> p, out |-> <<Mlt[p + 1]>>]
    [] code = "dman" -> LET a == 1 - s
                            b == IF x = 0 THEN 1 - a ELSE a IN [s |-> b, out |-> <<a, b>>]
Encode(code, m, in) ==
  FoldLeft(LAMBDA a, x : LET r == Step(code, m, a.s, x) IN [s |-> r.s, out |-> a.out \o r.out],
           [s |-> Start(code), out |-> <<>>], in).out
(* out is the waveform of in; linear in the length *)
IsWave(code, m, in, out) ==
  /\ Len(out) = W(code) * Len(in)
  /\ FoldLeft(LAMBDA a, i : LET r == Step(code, m, a.s, in[i])
                            IN  [s |-> r.s, ok |-> a.ok /\ SubSeq(out, (i - 1) * W(code) + 1, i * W(code)) = r.out],
              [s |-> Start(code), ok |-> TRUE], Iota(Len(in))).ok
InAlphabet(in, m) == \A i \in 1..Len(in) : in[i] \in 0..(m - 1)
OutShape(code, shp) == [i \in 1..Len(shp) |-> IF i = Len(shp) THEN W(code) * shp[i] ELSE shp[i]]

(* ---- received sequences with errors, results times two -------------------- *)
ManDec(rx) == [i \in 1..(Len(rx) \div 2) |-> IF rx[2 * i - 1] = rx[2 * i] THEN 1 ELSE 2 * rx[2 * i - 1]]
PrevMarks(rx, i) == {j \in 1..(i - 1) : rx[j] # 1}
NextMarks(rx, i) == {j \in (i + 1)..Len(rx) : rx[j] # 1}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
BipDec(rx) ==
  [i \in 1..Len(rx) |->
     IF rx[i] = 1 THEN 0
     ELSE LET P == PrevMarks(rx, i)
              N == NextMarks(rx, i)
              v == \/ P # {} /\ rx[SetMax(P)] = rx[i]
                   \/ N # {} /\ rx[SetMin(N)] = rx[i]
          IN  IF v THEN rx[i] - 1 ELSE 2]

(* ---------------------------------------------------------------- traces --- *)
LineInit(cfg) == [x |-> 0]
LineApply(cfg, st, ev) ==
  CASE ev.op = "enc" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "encoding raised " \o ev.exc>>,
           <<IsWave(cfg.code, cfg.m, ev.in, ev.out), "the encoded sequence is not the waveform of its code">>,
           <<ev.shp = OutShape(cfg.code, ev.ishp), "the encoded shape is wrong">> >>)]
    [] ev.op = "dec" ->   \* chips encode in
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "decoding raised " \o ev.exc>>,
           <<ev.out = ev.in, "decoding does not return the encoded sequence">>,
           <<ev.shp = ev.ishp, "the decoded shape is wrong">> >>)]
    [] ev.op = "decw" ->  \* the driver's own chips: judged as a waveform
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "decoding raised " \o ev.exc>>,
           <<InAlphabet(ev.out, cfg.m), "decoded symbols are outside the alphabet">>,
           <<InAlphabet(ev.out, cfg.m) /\ IsWave(cfg.code, cfg.m, ev.out, ev.chips), "the decoded sequence does not encode to the received one">>,
           <<OutShape(cfg.code, ev.shp) = ev.cshp, "the decoded shape is wrong">> >>)]
    [] OTHER -> Bad(st, "unknown event")

FlagInit(cfg) == [x |-> 0]
FlagApply(cfg, st, ev) ==
  CASE ev.op = "man" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "decoding raised " \o ev.exc>>,
           <<ev.out = ManDec(ev.rx), "Manchester violations are not flagged where they are">>,
           <<OutShape("man", ev.shp) = ev.ishp, "the decoded shape is wrong">> >>)]
    [] ev.op = "bip" ->
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "decoding raised " \o ev.exc>>,
           <<ev.out = BipDec(ev.rx), "bipolar violations are not flagged where they are">>,
           <<ev.shp = ev.ishp, "the decoded shape is wrong">> >>)]
    [] ev.op = "plain" -> \* bipolar without error detection: every mark is a one
         [st |-> st, bad |-> First(<<
           <<ev.exc = "", "decoding raised " \o ev.exc>>,
           <<ev.out = [i \in 1..Len(ev.rx) |-> IF ev.rx[i] = 1 THEN 0 ELSE 2], "a mark is not decoded as a one">>,
           <<ev.shp = ev.ishp, "the decoded shape is wrong">> >>)]
    [] ev.op = "bin" ->   \* vals: twice the values given to a function that is defined on binary data
         LET binary == \A i \in 1..Len(ev.vals) : ev.vals[i] \in {0, 2} IN
         [st |-> st, bad |-> First(<<
           <<binary => ev.exc = "", ev.fn \o " refused binary data with " \o ev.exc>>,
           <<~binary => ev.exc # "", ev.fn \o " accepted data that is not binary">> >>)]
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
