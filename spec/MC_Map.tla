------------------------------- MODULE MC_Map --------------------------------
(* every constellation, polarity, custom levels (reversed default x2) and all short symbol sequences *)
EXTENDS Symbols, TLC, Json
CONSTANTS MaxLen
VARIABLES c, pn, custom, syms
Cs == {"NRZ", "OOK", "PAM3", "PAM4"}
Init == c \in Cs /\ pn \in Bit /\ custom \in Bit /\ syms = <<>>
Next == Len(syms) < MaxLen /\ \E s \in 0..(Len(Levels(c)) - 1) : syms' = Append(syms, s) /\ UNCHANGED <<c, pn, custom>>
Lv == IF custom = 1 THEN [i \in 1..Len(Levels(c)) |-> 2 * Rev(Levels(c))[i] + 1] ELSE Levels(c)
Mapped == [i \in 1..Len(syms) |-> Neg(Lv[syms[i] + 1], pn)]
(* levels are increasing and evenly spaced, so demapping by position inverts mapping *)
Even == \A i \in 1..(Len(Levels(c)) - 1) : Levels(c)[i + 1] - Levels(c)[i] = Levels(c)[2] - Levels(c)[1]
Invertible == custom = 0 => \A i \in 1..Len(syms) :
             (Neg(Mapped[i], pn) - Levels(c)[1]) \div (Levels(c)[2] - Levels(c)[1]) = syms[i]
GrayInvolution == IsGrayTable([i \in 1..4 |-> GrayVal(i - 1)]) /\ \A i \in 0..3 : GrayVal(GrayVal(i)) = i
Emit == PrintT("@@" \o ToJson([c |-> c, pn |-> pn, lv |-> IF custom = 1 THEN Lv ELSE <<>>, syms |-> syms, out |-> Mapped,
                               gray |-> [i \in 1..Len(syms) |-> IF c \in {"PAM4"} THEN GrayVal(syms[i]) ELSE syms[i]]]))
==============================================================================
