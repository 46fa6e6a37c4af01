----------------------------- MODULE MC_Streams ------------------------------
(* every small integer filter, every input sequence, every cut: direct form = transposed form = convolution sum *)
EXTENDS Streams, TLC, Json
CONSTANTS MaxLen, Bs, As
BsQ == {-1, 0, 2}
AsQ == {-1, 0, 1}
AsT == {-1, 0, 1, 2}
VARIABLES b, a, x, y, ds, tz, cuts
Init == /\ b \in UNION {[1..n -> Bs] : n \in 1..3} /\ \E t \in UNION {[1..n -> As] : n \in 0..2} : a = <<1>> \o t
        /\ x = <<>> /\ y = <<>> /\ ds = DStart(b, a) /\ tz = TStart(b, a) /\ cuts = <<>>
Sample(v) == LET r == DStep(b, a, ds, v) IN
             x' = Append(x, v) /\ y' = Append(y, r.y) /\ ds' = r.s /\ tz' = TStep(b, a, tz, v).z /\ UNCHANGED <<b, a, cuts>>
Cut == /\ Len(x) > 0 /\ Len(cuts) < 1 /\ cuts' = Append(cuts, Len(x)) /\ UNCHANGED <<b, a, x, y, ds, tz>>
Next == Cut \/ (Len(x) < MaxLen /\ \E v \in {-1, 2} : Sample(v))
(* the transposed machine produces the same next sample in every state *)
FormsAgree == \A v \in {-1, 0, 2} : DStep(b, a, ds, v).y = TStep(b, a, tz, v).y
X(i) == IF i >= 1 THEN x[i] ELSE 0
Y(i) == IF i >= 1 THEN y[i] ELSE 0
Equation == \A n \in 1..Len(x) : y[n] = Sum([i \in 1..Len(b) |-> b[i] * X(n + 1 - i)]) - Sum([j \in 1..(Len(a) - 1) |-> a[j + 1] * Y(n - j)])
Emit == Len(x) = MaxLen => PrintT("@@" \o ToJson([b |-> b, a |-> a, x |-> x, y |-> y, cuts |-> cuts]))
==============================================================================
