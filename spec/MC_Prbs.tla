------------------------------- MODULE MC_Prbs -------------------------------
(* All small registers, all seeds, all ways to cut a stream into requests.    *)
EXTENDS Prbs, TLC, Json
CONSTANTS MaxDeg, MaxLen
VARIABLES poly, seed0, seed, cuts, out
vars == <<poly, seed0, seed, cuts, out>>

Init == /\ \E n \in 1..MaxDeg : poly \in [1..n -> Bit] /\ seed0 \in [1..n -> Bit]
        /\ seed = seed0 /\ cuts = <<>> /\ out = <<>>
Request(n) == LET g == Gen(poly, seed, n) IN
              /\ Len(out) + n <= MaxLen /\ Len(out) + n <= Pow2(Len(poly)) - 1
              /\ Len(cuts) < 3
              /\ out' = out \o g.out /\ seed' = g.seed /\ cuts' = Append(cuts, n)
              /\ UNCHANGED <<poly, seed0>>
Next == \E n \in 0..MaxLen : Request(n)

(* chunked = one shot, for output and state *)
Relational == FollowsRecurrence(poly, seed0, out) /\ seed = SeedAfter(seed0, out)
ChunkInvariant == LET g == Gen(poly, seed0, Len(out)) IN g.out = out /\ g.seed = seed
(* every bit satisfies the recurrence over the stream preceded by the seed *)
Recurrence == LET h == Rev(seed0) \o out
                  n == Len(poly) IN
              \A i \in 1..Len(out) : out[i] = Dot2(poly, [j \in 1..n |-> h[n + i - j]])
(* the state is the last n bits, newest first *)
SeedIsLastBits == LET h == Rev(seed0) \o out IN seed = Rev(LastN(h, Len(poly)))

Emit == Len(cuts) >= 1 /\ Len(out) = MaxLen =>
          PrintT("@@" \o ToJson([poly |-> poly, seed |-> seed0, cuts |-> cuts, out |-> out, oseed |-> seed]))
==============================================================================
