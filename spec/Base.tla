-------------------------------- MODULE Base ---------------------------------
(* Sequence and GF(2) operators shared by all component specifications.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bit == {0, 1}
Zeros(n) == [i \in 1..n |-> 0]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
CeilDiv(a, b) == (a + b - 1) \div b

Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
Prod(s) == FoldLeft(LAMBDA acc, x : acc * x, 1, s)
Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Dot(a, b) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])
Dot2(a, b) == Dot(a, b) % 2
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
LastN(s, n) == SubSeq(s, Max2(1, Len(s) - n + 1), Len(s))
Rotate(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
(* the same sequence, evaluated once and stored (TLC keeps function expressions unevaluated) *)
Force(s) == s \o <<>>
Iota(n) == [i \in 1..n |-> i]
MaxOf(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), s[1], s)
MinOf(s) == FoldLeft(LAMBDA acc, x : Min2(acc, x), s[1], s)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
AllBin(s) == \A i \in 1..Len(s) : s[i] \in Bit

Pow2(n) == 2 ^ n
(* k bits of x, least significant first / most significant first *)
BitsLsb(x, k) == [i \in 1..k |-> (x \div Pow2(i - 1)) % 2]
BitsMsb(x, k) == [i \in 1..k |-> (x \div Pow2(k - i)) % 2]
ValLsb(b) == FoldLeft(LAMBDA acc, i : acc + b[i] * Pow2(i - 1), 0, Iota(Len(b)))
ValMsb(b) == FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, b)
HammingDist(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]})

Bad(s, clause) == [st |-> s, bad |-> clause]
Good(s) == [st |-> s, bad |-> ""]
(* first violated clause of a list of <<condition, name>>, "" if none *)
First(cl) == FoldLeft(LAMBDA acc, c : IF acc # "" THEN acc ELSE IF c[1] THEN "" ELSE c[2], "", cl)
==============================================================================
