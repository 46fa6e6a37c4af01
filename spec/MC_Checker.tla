----------------------------- MODULE MC_Checker ------------------------------
(* PRBS7 source, a channel that flips bits, the checkers.                      *)
(*  "free": known phase, any flips; "econ": any phase, at most MaxErr flips;   *)
(*  "lock": more than a period at any phase, one flip                          *)
EXTENDS Checker, TLC, Json
CONSTANTS FreeLen, EconLen, MaxErr, Stride
VARIABLES mode, th, reg, data, errs
States == Gen(Poly(7), Ones(7), 127).out
SeedAt(k) == Rev([i \in 1..7 |-> States[((k + i - 1) % 127) + 1]])
Init == /\ data = <<>> /\ errs = {}
        /\ \/ mode = "free" /\ th \in {1, 2, 4} /\ reg = Ones(7)
           \/ mode = "econ" /\ th \in {1, 2, 3, 100} /\ \E k \in 0..126 : k % Stride = 0 /\ reg = SeedAt(k)
           \/ mode = "lock" /\ th \in {1, 2} /\ \E k \in 0..126 : k % Stride = 0 /\ reg = SeedAt(k)
Limit == CASE mode = "free" -> FreeLen [] mode = "econ" -> EconLen [] mode = "lock" -> 135
Bit1(flip) == LET b == NextBit(Poly(7), reg) IN
  /\ data' = Append(data, IF flip THEN 1 - b ELSE b) /\ reg' = Shift(reg, b)
  /\ errs' = (IF flip THEN errs \union {Len(data) + 1} ELSE errs) /\ UNCHANGED <<mode, th>>
(* in lock mode the whole clean burst is one step, then at most one flip *)
Burst == LET g == Gen(Poly(7), reg, 135) IN data' = g.out /\ reg' = g.seed /\ UNCHANGED <<mode, th, errs>>
Hit(i) == data' = [data EXCEPT ![i] = 1 - @] /\ errs' = {i} /\ UNCHANGED <<mode, th, reg>>
Next == IF mode = "lock"
        THEN \/ data = <<>> /\ Burst
             \/ data # <<>> /\ errs = {} /\ \E i \in 1..135 : (i % Stride \in {0, 1}) /\ Hit(i)
        ELSE Len(data) < Limit /\ \E f \in {FALSE, TRUE} :
               (f => (mode = "free" \/ Cardinality(errs) < MaxErr)) /\ Bit1(f)
Done == Len(data) = Limit
Truth == Verdict(MaskSeq(errs, Len(data)), th)
(* aligned comparison recovers exactly the flips *)
FreeExact == (mode = "free" /\ data # <<>>) => Positions(Xor(data, Gen(Poly(7), Ones(7), Len(data)).out)) = errs
(* when the first seed bits are clean, the economy checker marks exactly the flips *)
EconExact == (mode = "econ" /\ Done /\ \A i \in errs : i > 7) =>
               (IF Cardinality(errs) < th THEN LET r == Econ(7, data, th) IN r.lost = 0 /\ Positions(r.mask) = errs
                ELSE 0 \notin EconKeeps(7, data, th))
(* exactly one phase of the reference explains the first period with at most one error; every other one is far *)
Distinct == (mode = "lock" /\ Done) =>
   LET w == SubSeq(data, 1, 127)
       dist == [k \in 0..126 |-> HammingDist(w, [i \in 1..127 |-> States[((k + i - 1) % 127) + 1]])]
   IN  /\ Cardinality({k \in 0..126 : dist[k] <= 1}) = 1
       /\ \A k \in 0..126 : dist[k] <= 1 \/ dist[k] >= 62
Emit == Done => PrintT("@@" \o ToJson([mode |-> mode, th |-> th, data |-> data,
          v |-> (IF mode = "econ" THEN Econ(7, data, th) ELSE Truth)]))
==============================================================================
