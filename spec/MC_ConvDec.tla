------------------------------ MODULE MC_ConvDec -----------------------------
(* a list of codes; every received block of a few steps; the set of inputs on a nearest path *)
EXTENDS ConvCode, TLC, Json
CONSTANTS MaxBits
VARIABLES c, rx
Codes == << [G |-> <<<<  <<1,1,1>>, <<1,0,1>> >>>>, fb |-> << <<>> >>, uf |-> << <<0,0>> >>],
            [G |-> <<<<  <<1,1>>, <<1,0>> >>>>, fb |-> << <<>> >>, uf |-> << <<0,0>> >>],
            [G |-> <<<<  <<1,0>>, <<0,1>> >>>>, fb |-> << <<1,1>> >>, uf |-> << <<0,1>> >>],
            [G |-> <<<<  <<1,0,0>>, <<1,0,1>> >>>>, fb |-> << <<1,1,1>> >>, uf |-> << <<0,1>> >>],
            [G |-> <<<<  <<1,1>>, <<0,1>>, <<1,1>> >>>>, fb |-> << <<>> >>, uf |-> << <<0,0,0>> >>],
            [G |-> << << <<1,0>>, <<0,0>>, <<1,1>> >>, << <<0,0,0>>, <<1,0,0>>, <<0,0,1>> >> >>, fb |-> << <<>>, <<>> >>, uf |-> << <<0,0,0>>, <<0,0,0>> >>],
            [G |-> << << <<1,0>>, <<0,0>>, <<0,1>> >>, << <<0,0>>, <<1,0>>, <<1,1>> >> >>, fb |-> << <<1,1>>, <<>> >>, uf |-> << <<0,0,1>>, <<0,0,0>> >>],
            [G |-> << << <<1>>, <<0>>, <<1>> >>, << <<0,0>>, <<1,0>>, <<1,1>> >> >>, fb |-> << <<>>, <<>> >>, uf |-> << <<0,0,0>>, <<0,0,0>> >>] >>
C == Codes[c]
Init == c \in 1..Len(Codes) /\ rx = <<>>
Next == Len(rx) + NOut(C) <= MaxBits /\ \E w \in [1..NOut(C) -> Bit] : rx' = rx \o w /\ c' = c
Steps1 == Len(rx) \div NOut(C)
Inputs == [1..(NIn(C) * Steps1) -> Bit]
Nearest1 == LET b == Best(C, rx) IN {u \in Inputs : InputDist(C, u, rx) = b}
(* dynamic programming = exhaustive search; clean blocks have distance zero *)
DpIsExhaustive == Len(rx) > 0 => Best(C, rx) = CMin({InputDist(C, u, rx) : u \in Inputs})
Achieved == Len(rx) > 0 => Nearest1 # {}
CleanIsZero == Len(rx) > 0 => \A u \in Inputs : Conv(C, u) = rx => (Best(C, rx) = 0 /\ u \in Nearest1)
Emit == Len(rx) > 0 => PrintT("@@" \o ToJson([G |-> C.G, fb |-> C.fb, uf |-> C.uf, rx |-> rx, near |-> SetToSeq(Nearest1)]))
==============================================================================
