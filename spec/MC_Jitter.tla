------------------------------ MODULE MC_Jitter ------------------------------
(* Symbols are shaped on a grid F times finer than the output and sampled at instants an adversary displaces per symbol. *)
EXTENDS Jitter, TLC, Json
CONSTANTS MaxLen, F
VARIABLES osr, span, kind, sym, d, line, wave
Init == osr \in {1, 2, 3} /\ span \in {1, 2} /\ kind \in {"rect", "imp"} /\ sym = <<>> /\ d = <<>> /\ wave = <<>>
        /\ line = Zeros(PulseLen(osr * F, span))
Send(v, e) == LET h == IntPulse(kind, osr * F, span)
                  l == [i \in 1..Len(line) |-> line[i] + v * h[i]] IN
              /\ sym' = Append(sym, v) /\ d' = Append(d, e) /\ wave' = wave \o SubSeq(l, 1, osr * F)
              /\ line' = Drop(l, osr * F) \o Zeros(osr * F) /\ UNCHANGED <<osr, span, kind>>
Next == Len(sym) < MaxLen /\ \E v \in {-3, 1, 2} : \E e \in {-1, 0, 1} : Send(v, e)
Out == Jittered(wave, F, osr, d)
(* the waveform and what follows depend on the symbols only *)
MemoryIsClean == wave = Shaped(sym, IntPulse(kind, osr * F, span), osr * F)
(* displacements below half a sample never reach another symbol of a held (rectangular) waveform's inner samples *)
Inner == (kind = "rect" /\ osr = 3) => \A k \in 1..Len(sym) : LET i == Centre(osr, span) + (k - 1) * osr + 1 IN
            i <= Len(Out) => Out[i] = sym[k]
ZeroIsClean == (\A k \in 1..Len(d) : d[k] = 0) => \A i \in 1..Len(Out) : Out[i] = wave[(i - 1) * F + 1]
Emit == (Len(sym) = MaxLen /\ \A k \in 1..Len(d) : d[k] = 0) =>
          PrintT("@@" \o ToJson([osr |-> osr, span |-> span, kind |-> kind, sym |-> sym, out |-> Shaped(sym, IntPulse(kind, osr, span), osr)]))
==============================================================================
