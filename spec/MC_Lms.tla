------------------------------- MODULE MC_Lms --------------------------------
(* correlations accumulated sample by sample for every tap in a window; all short histories *)
EXTENDS Lms, TLC, Json
CONSTANTS MaxLen
VARIABLES x, y, r, acc, sq
Taps == -2..2
lv == <<-2, 2>>
Init == x = <<>> /\ y = <<>> /\ r = <<>> /\ sq = 0 /\ acc = [f |-> [d \in Taps |-> 0], g |-> [d \in 1..2 |-> 0]]
Sample(a, b) ==
  LET q == Nearest1(b, lv)  e == b - q  n == Len(x)
      E == Append(Errs(y, r), e)  X == Append(x, a)  R == Append(r, q)
  IN /\ x' = X /\ y' = Append(y, b) /\ r' = R /\ sq' = sq + e * e
     \* each new sample adds the products it makes possible: look-back taps now, look-ahead taps for the past error
     /\ acc' = [f |-> [d \in Taps |-> acc.f[d] + (IF d >= 0 THEN (IF n + 1 - d >= 1 THEN e * X[n + 1 - d] ELSE 0)
                                                 ELSE (IF n + 1 + d >= 1 THEN E[n + 1 + d] * a ELSE 0))],
                g |-> [d \in 1..2 |-> acc.g[d] - (IF n + 1 - d >= 1 THEN e * R[n + 1 - d] ELSE 0)]]
Next == Len(x) < MaxLen /\ \E a \in {-1, 2} : \E b \in {-3, -1, 1, 5} : Sample(a, b)
Machine == /\ sq = SqSum(Errs(y, r))
           /\ \A d \in Taps : acc.f[d] = CorrAt(Errs(y, r), x, d)
           /\ \A d \in 1..2 : acc.g[d] = -CorrAt(Errs(y, r), r, d)
(* the fixed point exponential: its square halves the argument *)
ExpLaw == x = <<>> => \A a \in 0..12 : LET h == ExpNeg(a, 8) IN Abs((h * h) \div TS - ExpNeg(a, 4)) <= 12
Emit == Len(x) >= 3 => PrintT("@@" \o ToJson([x |-> x, y |-> y, r |-> r, sq |-> sq,
           f |-> [i \in 1..5 |-> acc.f[i - 3]], g |-> acc.g]))
==============================================================================
