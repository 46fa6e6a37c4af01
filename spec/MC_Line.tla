------------------------------- MODULE MC_Line -------------------------------
(* every line code over every input sequence up to a length *)
EXTENDS LineCodes, TLC, Json
CONSTANTS MaxLen, MaxDiff
VARIABLES code, m, in, s, out
Init == /\ code \in Codes /\ m \in 2..4 /\ (code # "diff" => m = 2)
        /\ in = <<>> /\ s = Start(code) /\ out = <<>>
Next == /\ Len(in) < (IF m = 2 THEN MaxLen ELSE MaxDiff)
        /\ \E x \in 0..(m - 1) : LET r == Step(code, m, s, x) IN
             in' = Append(in, x) /\ s' = r.s /\ out' = out \o r.out /\ UNCHANGED <<code, m>>
Machine == out = Encode(code, m, in) /\ IsWave(code, m, in, out)
(* independent characterisations of the waveforms *)
Prev(i) == IF i = 1 THEN 0 ELSE out[i - 1]
Marks == SelectSeq(out, LAMBDA x : x # 1)
Wave ==
  CASE code = "diff" -> \A i \in 1..Len(in) : (out[i] - Prev(i)) % m = in[i]
    [] code = "man"  -> \A i \in 1..Len(in) : out[2 * i - 1] = in[i] /\ out[2 * i] = 1 - in[i]
    [] code = "bip"  -> /\ \A i \in 1..Len(in) : (out[i] = 1) <=> (in[i] = 0)
                        /\ \A i \in 1..Len(Marks) : Marks[i] = (IF i % 2 = 1 THEN 0 ELSE 2)
    [] code = "mlt3" -> /\ \A i \in 1..Len(in) : Abs(out[i] - Prev(i)) = in[i]
                        /\ \A i \in 1..Len(out) : out[i] \in 0..2
    [] code = "dman" -> /\ \A i \in 1..Len(in) : (out[2 * i] = out[2 * i - 1]) <=> (in[i] = 1)
                        /\ \A i \in 1..(Len(in) - 1) : out[2 * i + 1] # out[2 * i]
                        /\ Len(in) > 0 => out[1] = 0
(* the waveform determines its input *)
Injective == Len(in) = 3 => \A o \in [1..3 -> 0..(m - 1)] : Encode(code, m, o) = out => o = in
(* a clean waveform raises no flags *)
Clean == /\ code = "man" => ManDec(out) = [i \in 1..Len(in) |-> 2 * in[i]]
         /\ code = "bip" => BipDec(out) = [i \in 1..Len(in) |-> 2 * in[i]]
Emit == Len(in) > 0 => PrintT("@@" \o ToJson([code |-> code, m |-> m, in |-> in, out |-> out]))
==============================================================================
