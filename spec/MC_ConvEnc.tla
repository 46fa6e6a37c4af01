------------------------------ MODULE MC_ConvEnc -----------------------------
(* all one-input two-output codes with Taps taps and every feedback polynomial, some two-input codes; all messages *)
EXTENDS ConvCode, TLC, Json
CONSTANTS Taps, MaxSteps
VARIABLES C, msg, s, out
NoFb1 == [n \in 1..1 |-> <<>>]
Plain == {[G |-> <<g>>, fb |-> << <<>> >>, uf |-> << <<0, 0>> >>] : g \in [1..2 -> [1..Taps -> Bit]]}
Fbs == {<<1>> \o p : p \in {q \in [1..(Taps - 1) -> Bit] : TRUE}}
Unit == [k \in 1..Taps |-> IF k = 1 THEN 1 ELSE 0]
Rec == {[G |-> <<<<Unit, g>>>>, fb |-> <<f>>, uf |-> << <<0, 1>> >>] : g \in [1..Taps -> Bit], f \in Fbs}
       \cup {[G |-> <<<<g, h>>>>, fb |-> <<f>>, uf |-> << <<1, 1>> >>] : g \in {Unit}, h \in [1..Taps -> Bit], f \in Fbs}
Two == {[G |-> << << <<1, 0>>, <<0, 0>>, a >>, << <<0, 0, 0>>, <<1, 0, 0>>, b >> >>, fb |-> << <<>>, <<>> >>, uf |-> << <<0, 0, 0>>, <<0, 0, 0>> >>]
          : a \in [1..2 -> Bit], b \in [1..3 -> Bit]}
       \cup {[G |-> << << <<1, 0>>, <<0, 0>>, a >>, << <<0, 0, 0>>, <<1, 0, 0>>, b >> >>, fb |-> << <<1, 1>>, <<>> >>, uf |-> << <<0, 0, 1>>, <<0, 0, 0>> >>]
          : a \in [1..2 -> Bit], b \in [1..3 -> Bit]}
Init == C \in (Plain \cup Rec \cup Two) /\ msg = <<>> /\ s = Zero(C) /\ out = <<>>
Next == /\ Len(msg) < MaxSteps * NIn(C)
        /\ \E x \in Ins(C) : LET r == CStep(C, s, x) IN msg' = msg \o x /\ s' = r.s /\ out' = out \o r.out /\ C' = C
XorS(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
Machine == out = Conv(C, msg) /\ IsConv(C, msg, out)
(* linear and time invariant *)
Impulse(k) == [i \in 1..Len(msg) |-> IF i = k THEN 1 ELSE 0]
Linear == Len(msg) > 0 => \A k \in {1, Len(msg)} : Conv(C, XorS(msg, Impulse(k))) = XorS(out, Conv(C, Impulse(k)))
Shifted == Len(msg) > 0 => Conv(C, Zeros(NIn(C)) \o msg) = Zeros(NOut(C)) \o out
Emit == Len(msg) = MaxSteps * NIn(C) => PrintT("@@" \o ToJson([G |-> C.G, fb |-> C.fb, uf |-> C.uf, msg |-> msg, out |-> out]))
==============================================================================
