---------------------------- MODULE MC_PrbsPeriod ----------------------------
(* Walks every named register through its whole cycle from the all-ones seed: *)
(* it returns to it after 2^n-1 steps and not before, so all 2^n-1 nonzero    *)
(* seeds are on that one cycle.  The 31-bit register is decided algebraically. *)
EXTENDS Prbs, TLC
CONSTANT Sizes
VARIABLES n, k, seed
vars == <<n, k, seed>>
Ones(m) == [i \in 1..m |-> 1]
Init == n \in Sizes /\ k = 0 /\ seed = Ones(n)
Next == /\ k < Pow2(n) - 1
        /\ seed' = Shift(seed, NextBit(Poly(n), seed))
        /\ k' = k + 1 /\ n' = n
NonZero == \E i \in 1..n : seed[i] = 1
FullCycle == (seed = Ones(n) /\ k > 0) <=> (k = Pow2(n) - 1)

(* GF(2)[x] modulo f(x) = x^n + sum_{i in Taps} x^(n-i); polynomials are bit   *)
(* sequences, index i+1 = coefficient of x^i                                   *)
Red(m) == [i \in 1..m |-> IF (m - (i - 1)) \in Taps(m) THEN 1 ELSE 0]
MulX(p, m) == LET top == p[m] IN
              [i \in 1..m |-> ((IF i = 1 THEN 0 ELSE p[i - 1]) + top * Red(m)[i]) % 2]
Xor(p, q) == [i \in 1..Len(p) |-> (p[i] + q[i]) % 2]
Mul(p, q, m) == FoldLeft(LAMBDA acc, i : LET a == MulX(acc, m)
                                             b == p[m + 1 - i] IN IF b = 1 THEN TLCEval(Xor(a, q)) ELSE TLCEval(a),
                         Zeros(m), Iota(m))
X(m) == [i \in 1..m |-> IF i = 2 THEN 1 ELSE 0]
(* x^(2^31) = x, i.e. the order of x divides 2^31-1, which is prime, and is not 1 *)
Frob31 == FoldLeft(LAMBDA acc, i : TLCEval(Mul(acc, acc, 31)), X(31), Iota(31)) = X(31)
Prime31 == \A d \in 2..46341 : 2147483647 % d # 0
Prbs31Maximal == k = 0 => Frob31 /\ Prime31
==============================================================================
