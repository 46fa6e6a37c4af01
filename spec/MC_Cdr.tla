------------------------------- MODULE MC_Cdr --------------------------------
(* the correlations accumulate symbol by symbol; all short chunks, references, weights *)
EXTENDS Cdr, TLC, Json
CONSTANTS MaxLen
VARIABLES x, r, post, pre, wpost, wpre
Init == x = <<>> /\ r = <<>> /\ post = 0 /\ pre = 0 /\ wpost \in {1, 2} /\ wpre \in {1, 3}
Sym(a, b) == LET n == Len(x) IN
  /\ x' = Append(x, a) /\ r' = Append(r, b) /\ UNCHANGED <<wpost, wpre>>
  /\ post' = (IF n = 0 THEN 0 ELSE post + r[n] * a)        \* previous symbol against this sample
  /\ pre' = (IF n = 0 THEN 0 ELSE pre + b * x[n])          \* this symbol against the previous sample
Next == Len(x) < MaxLen /\ \E a \in {-2, 1, 3} : \E b \in {-1, 1} : Sym(a, b)
Machine == Len(x) >= 2 => post = Post(x, r) /\ pre = Pre(x, r)
Direction == Len(x) >= 2 => Diff(Rev(x), Rev(r), wpre, wpost) = -Diff(x, r, wpost, wpre)
Negation == Len(x) >= 2 => Diff([i \in 1..Len(x) |-> -x[i]], [i \in 1..Len(r) |-> -r[i]], wpost, wpre) = Diff(x, r, wpost, wpre)
(* tolerances 1/1000 and 2: the difference is an integer over (N-1), never on the edge of the first *)
Emit == Len(x) >= 2 => PrintT("@@" \o ToJson([x |-> x, r |-> r, wpost |-> wpost, wpre |-> wpre,
          s |-> Steps(post * wpost - pre * wpre, Len(x), 1, 1, 1000), s2 |-> Steps(post * wpost - pre * wpre, Len(x), 1, 5, 2)]))
==============================================================================
