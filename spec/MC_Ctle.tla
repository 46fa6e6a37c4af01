------------------------------- MODULE MC_Ctle -------------------------------
(* every small list of zeros and poles: the discrete filter, its DC gain, its  *)
(* stability, and independence of the order of the roots                       *)
EXTENDS Ctle, TLC, Json
CONSTANTS Cs, MaxP
VARIABLES zs, ps
CsQ == {1, 2, 3, 5, 8}
Init == zs = <<>> /\ ps = <<>>
Pole(c) == Len(ps) < MaxP /\ Len(zs) = 0 /\ ps' = Append(ps, c) /\ UNCHANGED zs
Zero(c) == Len(zs) < Len(ps) /\ zs' = Append(zs, c) /\ UNCHANGED ps
Next == \E c \in Cs : Pole(c) \/ Zero(c)
A == DenOf(ps)
B == NumOf(zs, ps)
(* unit gain at DC: both polynomials have the value 2^order at v = 1 *)
UnitDc == Sum(B) = Pow2(Len(ps)) /\ Sum(A) = Pow2(Len(ps))
(* every pole of the discrete filter, (c-1)/(c+1), lies inside the unit circle: the denominator has no root with |v| <= 1; *)
(* checked on the polynomial itself: each factor divides it and no factor vanishes there                                   *)
PEvalQ(p, num, den) == Sum([i \in 1..Len(p) |-> p[i] * (num ^ (i - 1)) * (den ^ (Len(p) - i))])
Stable == \A i \in 1..Len(ps) : /\ (IF ps[i] = 1 THEN TRUE ELSE PEvalQ(A, 1 + ps[i], ps[i] - 1) = 0)
                                /\ Abs(1 - ps[i]) < 1 + ps[i]
ZerosThere == \A i \in 1..Len(zs) : IF zs[i] = 1 THEN TRUE ELSE PEvalQ(B, 1 + zs[i], zs[i] - 1) = 0
(* zeros at half the sampling rate for the missing finite zeros *)
AtNyquist == (Len(zs) < Len(ps)) => PEvalQ(B, -1, 1) = 0
Commutes == \A i \in 1..(Len(ps) - 1) : DenOf([ps EXCEPT ![i] = ps[i + 1], ![i + 1] = ps[i]]) = A
Emit == Len(zs) > 0 => PrintT("@@" \o ToJson([zs |-> zs, ps |-> ps, a |-> A, b |-> B]))
==============================================================================
