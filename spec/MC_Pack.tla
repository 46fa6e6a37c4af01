------------------------------- MODULE MC_Pack -------------------------------
EXTENDS Symbols, TLC, Json
CONSTANTS MaxK, MaxBits
VARIABLES k, f, bits
Init == k \in 1..MaxK /\ f \in [ord : Bit, msb : Bit, lsb : Bit, pn : Bit] /\ bits = <<>>
Next == Len(bits) < MaxBits /\ \E b \in Bit : bits' = Append(bits, b) /\ UNCHANGED <<k, f>>
Used == Take(bits, (Len(bits) \div k) * k)
RoundTrip == Unpack(Pack(bits, k, f), k, f) = Used
BackAgain == LET s == Pack(bits, k, f) IN Pack(Unpack(s, k, f), k, f) = s
InRangeInv == InRange(Pack(bits, k, f), Pow2(k))
Injective == Len(bits) = k => \A o \in [1..k -> Bit] : (Pack(o, k, f) = Pack(bits, k, f)) => (o = bits)
Emit == PrintT("@@" \o ToJson([k |-> k, f |-> f, bits |-> bits, syms |-> Pack(bits, k, f), used |-> Used]))
==============================================================================
