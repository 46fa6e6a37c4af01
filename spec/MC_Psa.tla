------------------------------- MODULE MC_Psa --------------------------------
(* every unit, resolution, side-band convention and tone position              *)
EXTENDS Psa, TLC, Json
CONSTANTS Grids, Amps, Places
VARIABLES c, tones
GridsQ == {<<1000, 20, 4>>, <<1000, 35, 2>>, <<640, 32, 4>>, <<2000, 125, 8>>}
GridsT == {<<fs, rbw, o>> : fs \in {640, 1000, 2000}, rbw \in {16, 20, 35, 50, 125}, o \in {1, 2, 3, 4, 8}}
Init == /\ \E g \in Grids, cx \in Bit, sb \in {"DSB", "SSB"}, md \in Modes, rr \in {50, 100}, fu \in {1, 3}, ob \in {0, 10}, d \in {0, 2} :
             /\ (md # "dBm" /\ md # "dBm/Hz") => rr = 50
             /\ md # "dBFs" => fu = 1
             /\ md # "dBc" => ob = 0 /\ d = 0
             /\ cx = 1 => d = 0
             /\ c = [fs |-> g[1], rbw |-> g[2], osr |-> g[3], cplx |-> cx, sb |-> sb, mode |-> md, r |-> rr, full |-> fu, obw |-> ob, dc |-> d]
        /\ tones = <<>>
(* tones are added from low to high frequency, lobes apart *)
Cand == {m \in {((i * Nfft(c)) \div (2 * Places)) * s : i \in 1..(Places - 1), s \in IF c.cplx = 1 THEN {1, -1} ELSE {1}} :
           /\ 2 * Lobe(c) < Abs(m) /\ Abs(m) < (Nfft(c) \div 2) - 2 * Lobe(c)
           /\ (tones # <<>> => m > tones[Len(tones)].m + (2 * Lobe(c)))}
Next == /\ Len(tones) < 2
        /\ \E m \in Cand, A \in Amps : tones' = Append(tones, [m |-> m, A |-> A])
        /\ UNCHANGED c
Q(md) == Unit([c EXCEPT !.mode = md, !.obw = 0], tones)
Times(q, x) == <<q[1] * x, q[2]>>
Same(a, b) == Reduce(a) = Reduce(b)
FftFits == Nfft(c) >= WinLen(c) * c.osr /\ Nfft(c) < 2 * WinLen(c) * c.osr
PerHertz == /\ Same(Q("dBm"), Times(Q("dBm/Hz"), c.rbw))
            /\ Same(Q("dBuv"), Times(Q("dBuv/sqrt(Hz)"), c.rbw))
HalfBand == c.cplx = 0 => Same(Unit([c EXCEPT !.sb = "DSB"], <<[m |-> 1, A |-> 2]>>), IF Mode(c) = "dB" THEN <<1, 1>> ELSE Times(Unit([c EXCEPT !.sb = "SSB"], <<[m |-> 1, A |-> 2]>>), 2))
Emit == IF tones = <<>> THEN TRUE
        ELSE PrintT("@@" \o ToJson([c |-> c, tones |-> tones, nfft |-> Nfft(c), nbins |-> Len(Bins(c)), u |-> Reduce(Unit(c, tones)),
                                    pow2 |-> [i \in 1..Len(tones) |-> TonePow2(c, tones[i].A)]]))
==============================================================================
