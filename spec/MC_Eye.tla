------------------------------- MODULE MC_Eye --------------------------------
(* counters updated sample by sample; all short signals, values on and beside every bin edge *)
EXTENDS Eye, TLC, Json
CONSTANTS MaxSym
VARIABLES osr, F, q, s, cnt
Fs == 2
Init == /\ osr \in 1..2 /\ q \in {1, 2, 4, 8} /\ F = Fs * 2 /\ s = <<>> /\ cnt = [b \in 1..q |-> [p \in 1..osr |-> 0]]
Sample(x) == LET b == BinOf(x, F, q)  p == PhaseOf(Len(s) + 1, osr) IN
  /\ s' = Append(s, x) /\ cnt' = (IF b = 0 THEN cnt ELSE [cnt EXCEPT ![b][p] = @ + 1]) /\ UNCHANGED <<osr, F, q>>
Next == Len(s) < osr * MaxSym /\ \E x \in (-F - 1)..(F + 1) : Sample(x)
Whole == s # <<>> /\ Len(s) % osr = 0
Machine == s # <<>> => EyeOf(s, osr, F, q) = [b \in 1..q |-> [c \in 1..(2 * osr) |-> cnt[b][PhaseOf(c, osr)]]]
Total == \A p \in 1..osr : Sum([b \in 1..q |-> cnt[b][p]]) = CountP(s, osr, p, LAMBDA x : Abs(x) <= F)
Emit == Whole => PrintT("@@" \o ToJson([osr |-> osr, q |-> q, s |-> s, eye |-> EyeOf(s, osr, F, q)]))
==============================================================================
