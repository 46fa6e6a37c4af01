------------------------------ MODULE MC_Pulse -------------------------------
(* every short symbol sequence, small ratios and spans: the shaped signal is built up symbol by symbol *)
EXTENDS Pulse, TLC, Json
CONSTANTS MaxLen, MaxOsr, MaxSpan
VARIABLES kind, osr, span, sym, line, out
Vals == {-3, 1, 2}
Init == /\ kind \in {"rect", "imp"} /\ osr \in 1..MaxOsr /\ span \in 1..MaxSpan /\ sym = <<>> /\ out = <<>>
        /\ line = Zeros(PulseLen(osr, span))
(* the delay line machine: adding a pulse at the head, then shifting out osr samples *)
Send(v) == LET h == IntPulse(kind, osr, span)
               l == [i \in 1..Len(line) |-> line[i] + v * h[i]] IN
           /\ sym' = Append(sym, v) /\ out' = out \o SubSeq(l, 1, osr)
           /\ line' = Drop(l, osr) \o Zeros(osr) /\ UNCHANGED <<kind, osr, span>>
Next == Len(sym) < MaxLen /\ \E v \in Vals : Send(v)
Machine == out = Shaped(sym, IntPulse(kind, osr, span), osr)
NoIsi == kind = "rect" => \A k \in 1..Len(sym) : LET i == Centre(osr, span) + (k - 1) * osr + 1 IN i <= Len(out) => out[i] = sym[k]
Hold == kind = "rect" => \A k \in 1..Len(sym) : \A j \in 0..(osr - 1) :
          LET i == Centre(osr, span) + (k - 1) * osr + 1 + j - osr \div 2 IN i <= Len(out) => out[i] = sym[k]
Insert == kind = "imp" => \A i \in 1..Len(out) : out[i] = IF (i - 1) % osr = 0 THEN sym[(i - 1) \div osr + 1] ELSE 0
(* the closed forms: unit centre, zeros at the symbol instants, symmetry, for several roll-offs *)
Betas == {<<1, 4>>, <<1, 2>>, <<7, 20>>, <<1, 1>>, <<1, 10>>}
Nyquist == sym = <<>> => \A b \in Betas : \A k \in (-3)..3 : \A f \in {"sinc", "rcos"} :
             Abs(PulseVal(f, osr, b[1], b[2], k * osr) - (IF k = 0 THEN TS ELSE 0)) <= 8
Even == sym = <<>> => \A b \in Betas : \A p \in 1..(3 * osr) : \A f \in {"sinc", "rcos", "rrc"} :
             PulseVal(f, osr, b[1], b[2], p) = PulseVal(f, osr, b[1], b[2], -p)
(* the two forms of the quotient agree where both can be evaluated *)
Agree == sym = <<>> => \A b \in Betas \cup {<<1, 3>>, <<3, 7>>, <<9, 11>>} : \A p \in 1..(3 * osr) : LET A == DenA(osr, b[2])
             B(m) == DenB(osr, b[1], b[2], p, m)
             mid(m) == 20 * Abs(B(m)) > A /\ 2 * Abs(B(m)) < A IN
           /\ mid(2) => Abs(RcosNear(osr, b[1], b[2], p) - RcosQuot(osr, b[1], b[2], p)) <= 40
           /\ mid(4) => Abs(RrcNear(osr, b[1], b[2], p) - RrcQuot(osr, b[1], b[2], p)) <= 40
Emit == sym # <<>> => PrintT("@@" \o ToJson([kind |-> kind, osr |-> osr, span |-> span, sym |-> sym, out |-> out]))
==============================================================================
