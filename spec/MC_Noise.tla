------------------------------ MODULE MC_Noise -------------------------------
(* the channel with an adversarial noise source: whatever noise is added, the  *)
(* memory is that of the clean channel and output minus noise is its output    *)
EXTENDS Noise, TLC, Json
CONSTANTS MaxLen, Bs
VARIABLES b, x, z, y, e
BsQ == {<<1>>, <<2, -1>>, <<1, 3>>, <<1, -2, 1>>, <<0, 1, 2, -1>>}
Init == b \in Bs /\ x = <<>> /\ y = <<>> /\ e = <<>> /\ z = TStart(b, <<1>>)
Sample(v, w) == LET r == TStep(b, <<1>>, z, v) IN
                /\ x' = Append(x, v) /\ z' = r.z /\ y' = Append(y, r.y + w) /\ e' = Append(e, w) /\ UNCHANGED b
Next == Len(x) < MaxLen /\ \E v \in {-1, 0, 2} : \E w \in {-1, 0, 1} : Sample(v, w)
Memory == z = ChanRun(b, x).z
Signal == [i \in 1..Len(x) |-> y[i] - e[i]] = ChanRun(b, x).y
Power == \A i \in 1..Len(x) : ChanRun(b, x).y[i] = Sum([k \in 1..Len(b) |-> IF i - k + 1 >= 1 THEN b[k] * x[i - k + 1] ELSE 0])
Emit == (Len(x) \in {1, 2, MaxLen} /\ \A i \in 1..Len(e) : e[i] = 0) =>
          PrintT("@@" \o ToJson([b |-> b, x |-> x, y |-> y, z |-> z, p |-> Sum([i \in 1..Len(y) |-> y[i] * y[i]])]))
==============================================================================
