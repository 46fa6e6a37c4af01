------------------------------ MODULE MC_Slice -------------------------------
(* every increasing level list in -R..R (up to 4 levels), every input in half units beyond the range *)
EXTENDS Symbols, TLC, Json
CONSTANTS R
VARIABLES lv, x
Lists == UNION {{s \in [1..n -> {2 * i : i \in -R..R}] : \A i \in 1..(n - 1) : s[i] < s[i + 1]} : n \in 1..4}
Init == lv \in Lists /\ x = -2 * R - 5
Next == x < 2 * R + 5 /\ x' = x + 1 /\ lv' = lv
(* a nearest level always exists, two only on the exact midpoint of neighbours *)
Total == Cardinality(Nearest(x, lv)) \in {1, 2}
TieOnMid == Cardinality(Nearest(x, lv)) = 2 => \E i \in 1..(Len(lv) - 1) : 2 * x = lv[i] + lv[i + 1]
Fixed == x \in SeqSet(lv) => Nearest(x, lv) = {x}
Emit == PrintT("@@" \o ToJson([lv |-> lv, x |-> x, set |-> SetToSeq(Nearest(x, lv))]))
==============================================================================
