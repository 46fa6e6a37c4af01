------------------------------- MODULE MC_Lock -------------------------------
(* every rotation and every admissible set of bit errors; every short pattern *)
EXTENDS Lock, TLC, Json
CONSTANTS WithP15, MaxSym
VARIABLES pat, bin, rot, sig, nerr, pos, tail
P7 == <<1, 1, 1, 0, 0, 1, 0>>
P15 == <<1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1, 0, 1, 0>>
Budget(p) == (Len(p) - 2) \div 4           \* fewer than a quarter of the period
Syms == UNION {[1..n -> {-3, -1, 1, 3}] : n \in 2..MaxSym}
Init == /\ \/ bin = 1 /\ pat \in ({P7} \union (IF WithP15 THEN {P15} ELSE {}) \union {b \in UNION {[1..n -> Bit] : n \in 2..6} : SinglePeak(Nrz(b))})
           \/ bin = 0 /\ pat \in {p \in Syms : SinglePeak(p)}
        /\ rot \in 0..(Len(pat) - 1)
        /\ tail \in {0, 3, Len(pat) + 1}
        /\ sig = Rotate(pat, rot) \o [i \in 1..tail |-> pat[((i - 1 + rot) % Len(pat)) + 1]]
        /\ nerr = 0 /\ pos = 0
(* the channel flips bits from left to right *)
Flip(i) == /\ bin = 1 /\ pat \in {P7, P15} /\ tail = 0 /\ nerr < Budget(pat) /\ i > pos
           /\ sig' = [sig EXCEPT ![i] = 1 - @] /\ nerr' = nerr + 1 /\ pos' = i /\ UNCHANGED <<pat, bin, rot, tail>>
Next == \E i \in 1..Len(pat) : Flip(i)
P == IF bin = 1 THEN Nrz(pat) ELSE pat
S == IF bin = 1 THEN Nrz(sig) ELSE sig
Locks == \A k \in 0..(Len(pat) - 1) : k # rot => Corr(P, S, k) < Corr(P, S, rot)
Emit == PrintT("@@" \o ToJson([bin |-> bin, pat |-> pat, sig |-> sig, out |-> Rotate(pat, rot),
                               xc |-> [k \in 1..Offsets(P, S) |-> Corr(P, S, k - 1)]]))
==============================================================================
