------------------------------ MODULE MC_Purity ------------------------------
(* all histories of calls up to a length; between calls the caller may         *)
(* overwrite the results it received                                           *)
EXTENDS Purity, TLC, Json
CONSTANTS NCalls, MaxLen
VARIABLES hist, store, results, st
(* abstract meaning of a call on the store *)
Arg(i) == 10 * i
F(i, a) == (7 * i + 3 * a) % 101
Init == hist = <<>> /\ store = [i \in 1..NCalls |-> Arg(i)] /\ results = <<>> /\ st = PureInit([n |-> NCalls])
(* the result class: 1 when it is the fresh-state result *)
Class(i, r) == IF r = F(i, Arg(i)) THEN 1 ELSE 2
Call(i) == LET r == F(i, store[i])
               ap == PureApply([n |-> NCalls], st, [op |-> "call", id |-> i, name |-> "f", before |-> store[i], after |-> store[i], res |-> Class(i, r), exc |-> ""])
           IN  /\ hist' = Append(hist, i) /\ results' = Append(results, r) /\ st' = ap.st /\ ap.bad = "" /\ UNCHANGED store
Scribble == Len(results) > 0 /\ results[Len(results)] # 999 /\ results' = [results EXCEPT ![Len(results)] = 999] /\ UNCHANGED <<hist, store, st>>
Next == (Len(hist) < MaxLen /\ \E i \in 1..NCalls : Call(i)) \/ Scribble
ArgumentsKept == \A i \in 1..NCalls : store[i] = Arg(i)
Deterministic == \A i \in 1..Len(results) : results[i] \in {999, F(hist[i], Arg(hist[i]))}
NeverBlocked == Len(hist) < MaxLen => \A i \in 1..NCalls : ENABLED Call(i)
Emit == (Len(hist) = MaxLen /\ results[Len(results)] # 999 /\ \A i \in 1..(Len(results) - 1) : results[i] = 999) =>
          PrintT("@@" \o ToJson([h |-> hist]))
==============================================================================
