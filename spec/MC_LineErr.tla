------------------------------ MODULE MC_LineErr -----------------------------
(* every received sequence: the flags depend on nothing but the marks / pairs *)
EXTENDS LineCodes, TLC, Json
CONSTANTS MaxMan, MaxBip
VARIABLES code, rx
Init == code \in {"man", "bip"} /\ rx = <<>>
Next == /\ code' = code
        /\ \/ code = "man" /\ Len(rx) < 2 * MaxMan /\ \E a, b \in Bit : rx' = rx \o <<a, b>>
           \/ code = "bip" /\ Len(rx) < MaxBip /\ \E x \in 0..2 : rx' = Append(rx, x)
Dec == IF code = "man" THEN ManDec(rx) ELSE BipDec(rx)
(* no flag iff the sequence is a legal waveform up to the polarity of the first mark *)
Legal == IF code = "man" THEN \E in \in [1..(Len(rx) \div 2) -> Bit] : IsWave("man", 2, in, rx)
         ELSE \E in \in [1..Len(rx) -> Bit] :
                \/ IsWave("bip", 2, in, rx)
                \/ IsWave("bip", 2, in, [i \in 1..Len(rx) |-> 2 - rx[i]])
FlagsIffIllegal == Len(rx) <= 8 => (Legal <=> \A i \in 1..Len(Dec) : Dec[i] \in {0, 2})
(* a single chip error in a clean Manchester waveform flags exactly its own bit *)
Local == code = "man" => \A i \in 1..Len(Dec) : (Dec[i] = 1) <=> (rx[2 * i] = rx[2 * i - 1])
Emit == Len(rx) > 0 => PrintT("@@" \o ToJson([code |-> code, rx |-> rx, out |-> Dec]))
==============================================================================
