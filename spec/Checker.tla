------------------------------ MODULE Checker --------------------------------
(* PRBS error checkers.                                                        *)
EXTENDS Prbs
Ones(n) == [i \in 1..n |-> 1]
Xor(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
(* error masks are sets of 1-based positions in traces, 0/1 sequences here *)
MaskSeq(pos, n) == [i \in 1..n |-> IF i \in pos THEN 1 ELSE 0]
Positions(m) == {i \in 1..Len(m) : m[i] = 1}
(* the checker that knows the reference *)
Verdict(mask, th) == [lost |-> IF Sum(mask) >= th THEN 1 ELSE 0, correct |-> Len(mask) - Sum(mask), mask |-> mask]
(* the economy checker: candidate s = 0 .. n-1 is seeded by the received bits s+1 .. s+n *)
EconMask(n, data, s) ==
  LET seed == SubSeq(data, s + 1, s + n)
      pred == Gen(Poly(n), Rev(seed), Len(data) - s - n).out
  IN  Zeros(n) \o Xor(SubSeq(data, s + n + 1, Len(data)), pred)
EconKeeps(n, data, th) == {s \in 0..(n - 1) : Sum(EconMask(n, data, s)) < th}
Econ(n, data, th) ==
  LET K == EconKeeps(n, data, th) IN
  IF K = {} THEN [lost |-> 1, correct |-> -1, mask |-> <<>>]
  ELSE LET s == CHOOSE k \in K : \A j \in K : k <= j
           m == EconMask(n, data, s)
       IN  [lost |-> 0, correct |-> Len(data) - Sum(m), mask |-> m]
PosSet(s) == {s[i] : i \in 1..Len(s)}
CheckerInit(cfg) == [x |-> 0]
CheckerApply(cfg, st, ev) ==
  CASE ev.op = "chk" ->      \* errs: the true error positions, known to the recorder
         LET mask  == MaskSeq(PosSet(ev.errs), Len(ev.data))
             clean == Xor(ev.data, mask)
             legit == IF ev.lock = 1 THEN FollowsRecurrence(Poly(ev.n), Ones(ev.n), clean)
                      ELSE FollowsRecurrence(Poly(ev.n), Rev(Take(clean, ev.n)), Drop(clean, ev.n))
         IN  Bad(st, First(<<
            <<legit, "recorded stream is not a PRBS with the recorded errors (driver)">>,
            <<ev.exc = "", "checking raised " \o ev.exc>>,
            <<Len(ev.mask) = Len(ev.errs) /\ PosSet(ev.mask) = PosSet(ev.errs), "the marked positions are not the erroneous ones">>,
            <<ev.mlen = Len(ev.data), "the error mask has another length than the stream">>,
            <<ev.correct = Len(ev.data) - Len(ev.errs), "the correct count is wrong">>,
            <<ev.lost = (IF Len(ev.errs) >= ev.th THEN 1 ELSE 0), "loss of lock is declared wrongly">> >>))
    [] ev.op = "econ" ->
         IF ev.exc # "" THEN Bad(st, "checking raised " \o ev.exc)
         ELSE LET r == Econ(ev.n, ev.data, ev.th) IN
         Bad(st, First(<<
            <<ev.lost = r.lost, "economy checker: loss of lock is declared wrongly">>,
            <<r.lost = 1 \/ (ev.mlen = Len(r.mask) /\ PosSet(ev.mask) = Positions(r.mask)), "economy checker: the marked positions are wrong">>,
            <<r.lost = 1 \/ ev.correct = r.correct, "economy checker: the correct count is wrong">> >>))
    [] OTHER -> Bad(st, "unknown event")
==============================================================================
