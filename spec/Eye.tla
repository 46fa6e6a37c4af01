--------------------------------- MODULE Eye ---------------------------------
(* Eye diagram: amplitude histogram per sampling phase, shown twice.           *)
EXTENDS Base
(* bin 1..q of value x for the range [-F, F]; 0 when outside; the last bin includes F *)
BinOf(x, F, q) == IF x < -F \/ x > F THEN 0 ELSE IF x = F THEN q ELSE ((x + F) * q) \div (2 * F) + 1
PhaseOf(i, osr) == ((i - 1) % osr) + 1
Sure(x, F, q, eps, b) == BinOf(x - eps, F, q) = b /\ BinOf(x + eps, F, q) = b
Maybe(x, F, q, eps, b) == \E d \in {-eps, 0, eps} : BinOf(x + d, F, q) = b
CountP(s, osr, p, Ok(_)) == Cardinality({i \in 1..Len(s) : PhaseOf(i, osr) = p /\ Ok(s[i])})
EyeOf(s, osr, F, q) == [b \in 1..q |-> [c \in 1..(2 * osr) |-> CountP(s, osr, PhaseOf(c, osr), LAMBDA x : BinOf(x, F, q) = b)]]
EyeInit(cfg) == [x |-> 0]
(* ev.s: the samples at the diagram's rate (whole symbols, repeated ev.rep times), ev.eye: flat q x (2 osr); ev.amp in sample units *)
EyeApply(cfg, st, ev) ==
  IF ev.exc # "" THEN Bad(st, "eye diagram raised " \o ev.exc)
  ELSE IF ev.shp # <<ev.q, 2 * ev.osr>> THEN Bad(st, "the diagram does not have one row per bin and two symbol periods")
  ELSE LET E(b, c) == ev.eye[(b - 1) * 2 * ev.osr + c] IN
       Bad(st, First(<<
         <<\A b \in 1..ev.q : \A c \in 1..ev.osr : E(b, c) = E(b, c + ev.osr), "the second symbol period differs from the first">>,
         <<\A c \in 1..ev.osr : \A b \in 1..ev.q :
             /\ E(b, c) >= ev.rep * CountP(ev.s, ev.osr, c, LAMBDA x : Sure(x, ev.F, ev.q, ev.eps, b))
             /\ E(b, c) <= ev.rep * CountP(ev.s, ev.osr, c, LAMBDA x : Maybe(x, ev.F, ev.q, ev.eps, b)), "a bin count is wrong">>,
         <<\A c \in 1..ev.osr : LET tot == Sum([b \in 1..ev.q |-> E(b, c)]) IN
             /\ tot >= ev.rep * CountP(ev.s, ev.osr, c, LAMBDA x : Abs(x) <= ev.F - ev.eps)
             /\ tot <= ev.rep * CountP(ev.s, ev.osr, c, LAMBDA x : Abs(x) <= ev.F + ev.eps), "a column does not count its phase's samples">>,
         <<Len(ev.amp) = ev.q, "the amplitude axis does not have one value per bin">>,
         <<Len(ev.amp) # ev.q \/ ev.q = 1 \/ \A i \in 1..ev.q : Abs(ev.amp[i] * (ev.q - 1) - (2 * ev.F * (i - 1) - ev.F * (ev.q - 1))) <= ev.q, "the amplitude axis does not span the range">> >>))
==============================================================================
