------------------------------ MODULE MC_Interp ------------------------------
(* every small polynomial, order and factor: the window slides one sample at a time *)
EXTENDS Interp, TLC, Json
CONSTANTS MaxOrder, MaxOsr, NOut
VARIABLES n, osr, c, m, out
Cs == {-1, 0, 2}
X(i) == PolyQ(c, i, 1)                 \* sample i = 0, 1, ..
Init == /\ n \in 1..MaxOrder /\ osr \in 1..MaxOsr /\ c \in UNION {[1..k -> Cs] : k \in 1..(n + 1)} /\ m = 0 /\ out = <<>>
(* exact interpolation at (m + a/osr), scaled by osr^deg: sum of num/den over the window, over a common denominator *)
Fact(k) == Prod(Iota(k))
Exact(a) == LET w == Window(n, 1)
                D == Fact(n) * Fact(n)          \* every den is +- i! (n-i)! osr^n, which divides (n!)^2 osr^n
                s == Sum([i \in 1..Len(w) |-> (LagNum(w, i, a, osr) * (D \div (Abs(LagDen(w, i, 1))))) * Sign(LagDen(w, i, 1)) * X(TrimPre(n) + m + w[i])])
            IN  s \div (D * osr ^ (n + 1 - Len(c)))
Slide == /\ m < NOut /\ m' = m + 1 /\ out' = out \o [k \in 1..osr |-> Exact(k - 1)] /\ UNCHANGED <<n, osr, c>>
Next == Slide
Reproduces == \A i \in 1..Len(out) : out[i] = PolyQ(c, TrimPre(n) * osr + i - 1, osr)
SumsToOne == \A a \in 0..(osr - 1) : LET w == Window(n, 1) IN Abs(Sum([i \in 1..Len(w) |-> LagVal(w, i, a, osr)]) - TS) <= 4 * (n + 1)
Unit == \A f \in {0, 1} : \A k \in {"lagrange", "sinc", "rcos"} : LET w == Window(n, f) IN
          \A i \in 1..Len(w) : Abs(Weight(k, w, i, 0, osr, 1, 4) - (IF w[i] = 0 THEN TS ELSE 0)) <= 2
(* both ways to the Lagrange weights agree *)
FarAgrees == \A f \in {0, 1} : LET w == Window(n, f) IN \A a \in 0..(osr - 1) : \A i \in 1..Len(w) : Abs(LagFar(w, i, a, osr) - LagVal(w, i, a, osr)) <= 12
Emit == m = NOut => PrintT("@@" \o ToJson([n |-> n, osr |-> osr, deg |-> Len(c) - 1, x |-> [i \in 1..(NOut + n) |-> X(i - 1)], out |-> out]))
==============================================================================
