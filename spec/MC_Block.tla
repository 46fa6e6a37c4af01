------------------------------- MODULE MC_Block ------------------------------
(* a message is encoded, the channel flips bits one by one, the receiver finds the nearest codewords *)
EXTENDS BlockCode, TLC, Json
CONSTANTS Dims, WithHamming
DimsQ == {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<2, 3>>}
DimsT == DimsQ \cup {<<2, 4>>, <<3, 2>>, <<3, 3>>}
VARIABLES G, u, err
Hamming74 == << <<1,0,0,0,1,1,0>>, <<0,1,0,0,1,0,1>>, <<0,0,1,0,0,1,1>>, <<0,0,0,1,1,1,1>> >>
Simplex73 == << <<1,0,0,1,1,0,1>>, <<0,1,0,1,0,1,1>>, <<0,0,1,0,1,1,1>> >>
Gs == UNION {[1..d[1] -> [1..d[2] -> Bit]] : d \in Dims} \cup (IF WithHamming THEN {Hamming74, Simplex73} ELSE {})
Init == G \in Gs /\ u \in Msgs(G) /\ err = Zeros(N(G))
Flip(i) == err[i] = 0 /\ err' = [err EXCEPT ![i] = 1] /\ (\A j \in 1..N(G) : j >= i => err[j] = 0)
Next == \E i \in 1..N(G) : Flip(i) /\ UNCHANGED <<G, u>>
Rx == Xor(Codeword(G, u), err)
(* the nearest set depends on the received word only, contains every closest message *)
CorrectsUpToHalf == Injective1(G) /\ 2 * Weight(err) < DMin(G) => NearestMsgs(G, Rx) = {u}
Bounded == BestDist(G, Rx) <= Weight(err)
Linear == Weight(err) = 0 => \A w \in Msgs(G) : Xor(Codeword(G, u), Codeword(G, w)) = Codeword(G, Xor(u, w))
Emit == PrintT("@@" \o ToJson([G |-> G, u |-> u, code |-> Codeword(G, u), rx |-> Rx, near |-> SetToSeq(NearestMsgs(G, Rx)), inj |-> IF Injective1(G) THEN 1 ELSE 0, best |-> BestDist(G, Rx)]))
==============================================================================
