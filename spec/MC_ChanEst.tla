----------------------------- MODULE MC_ChanEst ------------------------------
(* every small channel in the window, a set of rotations and options; the     *)
(* received period and the estimate it must give                               *)
EXTENDS ChanEst, TLC, Json
CONSTANTS TapVals, Configs, Rots, MaxWin
VARIABLES o, pat, h, hp, pre, post, rot, done
(* options: <<k, c, ord, pn, gray>> *)
ConfigsQ == { <<1, "NRZ", 0, 0, 0>>, <<1, "NRZ", 0, 1, 0>>, <<1, "OOK", 0, 0, 0>>, <<2, "PAM4", 0, 0, 0>>, <<2, "PAM4", 1, 0, 1>>, <<2, "PAM4", 0, 1, 1>> }
Main == 8
Pat(q) == PatternOf(7, q[1], q[2], [ord |-> q[3], msb |-> 0, lsb |-> 0, pn |-> q[4]], q[5])
Init == /\ o \in Configs /\ pat = Pat(o) /\ rot \in Rots /\ h = <<Main>> /\ hp = 0
        /\ pre \in 0..(MaxWin - 1) /\ post \in 0..(MaxWin - 1) /\ done = 0
(* grow the channel on either side, inside the window *)
Post(v) == done = 0 /\ Len(h) - hp - 1 < post /\ h' = Append(h, v) /\ UNCHANGED <<o, pat, hp, pre, post, rot, done>>
PreC(v) == done = 0 /\ Len(h) - hp - 1 = post /\ hp < pre /\ h' = <<v>> \o h /\ hp' = hp + 1 /\ UNCHANGED <<o, pat, pre, post, rot, done>>
Stop == done = 0 /\ done' = 1 /\ UNCHANGED <<o, pat, h, hp, pre, post, rot>>
Next == Stop \/ \E v \in TapVals : Post(v) \/ PreC(v)
S == OnePeriod(pat, h, hp, rot)
W == Window(h, hp, pre, post)
L == pre + post + 1
(* the main cursor is where the received period correlates best with the pattern, so locking finds the rotation *)
C(k, s) == FoldLeft(LAMBDA a, t : a + At(pat, t - 1 + k) * s[t], 0, Iota(Len(pat)))
Locks == done = 1 => LET s == S IN LET m == C(rot, s) IN \A d \in (-(MaxWin + 1))..(MaxWin + 1) : d # 0 => C(rot + d, s) < m
(* the channel itself solves the normal equations of the window *)
Normal == done = 1 => LET s == S w == W au == [d \in 0..L |-> Auto(pat, d)] IN
                      \A i \in 1..L : Sum([j \in 1..L |-> au[Abs(i - j)] * w[j]]) = Cross(pat, s, rot, pre, i)
Inside == Fits(h, hp, pre, post)
Emit == done = 1 => PrintT("@@" \o ToJson([k |-> o[1], c |-> o[2], ord |-> o[3], pn |-> o[4], gray |-> o[5], pre |-> pre, post |-> post, sig |-> S, w |-> W]))
TapsQ == {-2, 1}
RotsQ == {0, 126, 50}
==============================================================================
