------------------------------ MODULE MC_EqEst -------------------------------
(* Signals and references built so that given taps reproduce the reference     *)
(* exactly: the reference is produced by running the equalizer.  Every small   *)
(* tap set; the signal is extended sample by sample.                           *)
EXTENDS EqEst, TLC, Json
CONSTANTS MaxL, MaxD, N, Starts
VARIABLES f, d, x, r, g
L == Len(f)
D == Len(d)
FTaps == UNION {[1..k -> {-1, 0, 2}] : k \in 1..MaxL}
DTaps == {t \in UNION {[1..k -> {-1, 0, 1}] : k \in 0..MaxD} : Len(t) >= 2 => t[Len(t)] = 1}
(* an input source with enough variation: bits of a shift register, weighted *)
Step(s) == (s * 5 + 3) % 64
Val(s) == ((s * 11) % 13) - 6
Init == /\ f \in {t \in FTaps : \E i \in 1..Len(t) : t[i] # 0} /\ d \in DTaps /\ g \in Starts
        /\ x = <<>> /\ r = <<>>
T0 == f \o d
(* one more input sample; as soon as row m is complete its reference is defined by the equalizer *)
Sample == /\ Len(x) < N /\ x' = Append(x, Val(g)) /\ g' = Step(g)
          /\ r' = (IF Len(r) < D THEN Append(r, (Len(r) % 2) + 1)
                   ELSE IF Len(x) + 1 >= Len(r) + L
                        THEN LET m == Len(r) - D + 1 IN
                             Append(r, FoldLeft(LAMBDA a, k : a + T0[k] * (IF k <= L THEN x'[m + D + L - k] ELSE -r[m + D - (k - L)]), 0, Iota(L + D)))
                        ELSE r)
          /\ UNCHANGED <<f, d>>
Next == Sample
Done == Len(x) = N
M == Len(r) - D
RR == r \o Zeros(N - Len(r))
Exact == \A m \in 1..Max2(0, M) : m + D + L - 1 <= Len(x) => EqOut(x, r, L, D, T0, m) = r[m + D]
(* sum of squared errors of other taps: none is smaller than that of the exact ones *)
Sse(t) == Sum([m \in 1..Rows(x, L, D) |-> LET v == RowErr(x, RR, L, D, t, 1, m) IN v * v])
RECURSIVE Det(_)
Det(a) == LET n == Len(a) IN
          IF n = 1 THEN a[1][1]
          ELSE Sum([j \in 1..n |-> (IF j % 2 = 1 THEN 1 ELSE -1) * a[1][j] *
                       Det([p \in 1..(n - 1) |-> [q \in 1..(n - 1) |-> a[p + 1][IF q < j THEN q ELSE q + 1]]])])
(* full column rank: some K rows with nonzero determinant, tried consecutively *)
FullRank == LET K == L + D IN
            \E m \in 1..(Rows(x, L, D) - K) : Det([i \in 1..K |-> [k \in 1..K |-> Reg(x, RR, L, D, m + i - 1, k) % 7]]) % 7 # 0
OptInv == Done => Sse(T0) = 0
PerturbedWorse == (Done /\ FullRank) => \A k \in 1..(L + D) : \A s \in {-1, 1} : Sse([T0 EXCEPT ![k] = @ + s]) > 0
Bounded == \A i \in 1..Len(r) : Abs(r[i]) <= 2000
Emit == (Done /\ FullRank) => PrintT("@@" \o ToJson([x |-> x, r |-> RR, f |-> f, d |-> d]))
StartsQ == {1, 7, 30}
==============================================================================
