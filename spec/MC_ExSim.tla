------------------------------ MODULE MC_ExSim -------------------------------
EXTENDS ExSim, TLC, Json
CONSTANTS Cds, Sizes, MaxChunks, Seeds
VARIABLES cd, n, s0, seed, chunks
F(a, b, c, d) == [ord |-> a, msb |-> b, lsb |-> c, pn |-> d]
Mids == {[man |-> 0, dman |-> 0, bip |-> 0, mlt3 |-> 0], [man |-> 1, dman |-> 0, bip |-> 0, mlt3 |-> 0], [man |-> 0, dman |-> 1, bip |-> 0, mlt3 |-> 0],
         [man |-> 1, dman |-> 1, bip |-> 0, mlt3 |-> 0], [man |-> 0, dman |-> 0, bip |-> 1, mlt3 |-> 0], [man |-> 0, dman |-> 0, bip |-> 0, mlt3 |-> 1]}
Tern(m) == m.bip + m.mlt3 > 0
Mk(c, k, f, bd, m, fec, sd, g) == [c |-> c, k |-> k, f |-> f, bdiff |-> bd, man |-> m.man, bip |-> m.bip, mlt3 |-> m.mlt3, dman |-> m.dman,
                                   lin |-> IF fec = "lin" THEN 1 ELSE 0, conv |-> IF fec = "conv" THEN 1 ELSE 0, sdiff |-> sd, gray |-> g]
FlagSet(k) == IF k = 2 THEN {F(a, b, c, d) : a \in Bit, b \in Bit, c \in Bit, d \in Bit} ELSE {F(0, 0, 0, d) : d \in Bit}
Alts(m) == IF Tern(m) THEN {<<"PAM3", 0>>} ELSE {<<"NRZ", 1>>, <<"OOK", 1>>, <<"PAM4", 2>>}
Fecs(m) == IF Tern(m) THEN {"no"} ELSE IF m.man + m.dman = 0 THEN {"no", "lin", "conv"} ELSE {"no", "lin"}
AllCds(FS(_)) == UNION {UNION {{Mk(ck[1], ck[2], f, bd, m, fec, sd, IF ck[2] = 0 THEN 0 ELSE g) :
                   f \in FS(ck[2]), bd \in Bit, fec \in Fecs(m), sd \in Bit, g \in Bit} : ck \in Alts(m)} : m \in Mids}
FewFlags(k) == IF k = 2 THEN {F(0, 0, 0, 0), F(1, 0, 1, 0), F(1, 1, 0, 1)} ELSE FlagSet(k)
CdsQ == AllCds(FewFlags)
CdsT == AllCds(FlagSet)
SeedsQ == {<<1, 1, 1, 1, 1, 1, 1>>, <<0, 1, 1, 0, 1, 0, 0>>}

Init == /\ cd \in Cds /\ n \in Sizes /\ Valid(cd, n) /\ s0 \in Seeds /\ seed = s0 /\ chunks = <<>>
Generate == /\ Len(chunks) < MaxChunks
            /\ LET g == PR!Gen(PR!Poly(7), seed, n) IN
               seed' = g.seed /\ chunks' = Append(chunks, [bits |-> g.out, sym |-> EncSyms(cd, g.out)])
            /\ UNCHANGED <<cd, n, s0>>
Next == Generate
All == LK!FlatSeq([i \in 1..Len(chunks) |-> chunks[i].bits])
OneStream == All = PR!Gen(PR!Poly(7), s0, Len(All)).out
RoundTrip == \A i \in 1..Len(chunks) : DecSyms(cd, chunks[i].sym) = chunks[i].bits
InAlphabet == \A i \in 1..Len(chunks) : \A j \in 1..Len(chunks[i].sym) : chunks[i].sym[j] \in 0..(Card(cd) - 1)
Emit == IF Len(chunks) = MaxChunks THEN PrintT("@@" \o ToJson([cd |-> cd, n |-> n, seed |-> s0, chunks |-> chunks, oseed |-> seed])) ELSE TRUE
==============================================================================
