------------------------------ MODULE MC_Adapt -------------------------------
(* The control of both loops over histories of chunks, learning rate zero, so  *)
(* that every quantity is exact: samples in halves, levels at plus/minus one.  *)
EXTENDS Adapt, TLC, Json
CONSTANTS Pairs, MaxLen
VARIABLES pre, p0, s, phase, last, mse, hist, begun
A == <<2, 2, -2, -2>>
B == <<3, 1, -2, 2>>
C == <<-1, 2, 3, -3>>
PairsQ == {<<A, A>>, <<A, B>>, <<B, C>>}
PairsT == {A, B, C} \X {A, B}
Osr == 2
Weave(a, b) == [i \in 1..8 |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE b[i \div 2]]
Dec(y) == [i \in 1..Len(y) |-> IF y[i] > 0 THEN 2 ELSE -2]
vars == <<pre, p0, s, phase, last, mse, hist, begun>>
Init == /\ pre \in {0, 1} /\ p0 \in {0, 1} /\ phase = p0
        /\ s = Idle /\ last = <<>> /\ mse = -1 /\ hist = <<>> /\ begun = 0
Begin == /\ hist # <<>> /\ begun < 2 /\ (begun = 0 => Len(hist) <= 2) /\ (begun = 1 => s.done = 1)
         /\ s' = Begun(s) /\ begun' = begun + 1
         /\ hist' = Append(hist, [begin |-> 1, x |-> <<>>, phase |-> phase, fl |-> Flags(Begun(s)), sq |-> mse])
         /\ UNCHANGED <<pre, p0, phase, last, mse>>
Chunk(a, b) ==
  LET x   == Weave(a, b)
      adc == Force(Sampled(x, phase, Osr))
      y   == Force(Aligned(last, adc, pre))
      d   == Force(Dec(y))
      stp == CHOOSE p \in CD!Steps(CD!Diff(y, d, 1, 1), 4, 4, 1, 1000) : TRUE
      sq  == SqS([i \in 1..4 |-> y[i] - d[i]])
      m   == IF s.conv = 1 /\ s.lms = 1 THEN sq ELSE mse
      n   == Control(s, stp, IF sq = mse THEN 1 ELSE 0)
      ph  == PhaseAfter(s, phase, stp, Osr)
  IN  /\ s' = n /\ phase' = ph /\ last' = adc /\ mse' = m
      /\ hist' = Append(hist, [begin |-> 0, x |-> x, phase |-> ph, fl |-> Flags(n), sq |-> m])
      /\ UNCHANGED <<pre, p0, begun>>
Zero4 == <<0, 0, 0, 0>>
Next == /\ Len(hist) < MaxLen
        /\ \/ Begin
           \/ \E pr \in Pairs : LET a == pr[1]  b == pr[2] IN
                IF last = <<>> THEN /\ last' = Sampled(Weave(a, b), phase, Osr) /\ hist' = Append(hist, [begin |-> 0, x |-> Weave(a, b), phase |-> phase, fl |-> Flags(s), sq |-> mse])
                                    /\ UNCHANGED <<pre, p0, s, phase, mse, begun>>
                ELSE Chunk(a, b)
PhaseInRange == phase \in 0..(Osr - 1)
DoneMeansStopped == s.done = 1 => s.conv = 0 /\ s.cdr = 0 /\ s.lms = 0
OpenMeansRunning == s.conv = 1 <=> (s.cdr = 1 \/ s.lms = 1)
(* a stopped loop stays stopped until the next start, and a stopped clock holds the phase *)
Frozen == [][/\ (s.cdr = 0 /\ s'.cdr = 1) => begun' = begun + 1
             /\ (s.cdr = 0 => phase' = phase)
             /\ (s.lms = 0 => mse' = mse)
             /\ (begun > 0 => s'.conv = 1 \/ s'.done = 1)]_vars
Emit == IF Len(hist) = MaxLen /\ begun > 0 /\ hist[MaxLen].begin = 0 THEN PrintT("@@" \o ToJson([pre |-> pre, p0 |-> p0, hist |-> hist])) ELSE TRUE
==============================================================================
