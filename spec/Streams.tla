------------------------------- MODULE Streams -------------------------------
(* Linear difference equations processed in chunks.                            *)
(*   a[1] y[n] = sum_i b[i] x[n-i+1] - sum_j a[j] y[n-j+1] (j >= 2)            *)
EXTENDS Equalizer

(* direct form: state = latest inputs and outputs, newest first *)
DStart(b, a) == [xs |-> Zeros(Len(b)), ys |-> Zeros(Len(a) - 1)]
DStep(b, a, s, x) ==            \* integer model, a[1] = 1
  LET xs == SubSeq(<<x>> \o s.xs, 1, Len(b))
      y == Dot(b, xs) - (IF Len(a) = 1 THEN 0 ELSE Dot(Drop(a, 1), s.ys))
  IN  [y |-> y, s |-> [xs |-> xs, ys |-> SubSeq(<<y>> \o s.ys, 1, Len(a) - 1)]]
(* transposed form II: state z of length max(Len(a), Len(b)) - 1 *)
At(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
TStart(b, a) == Zeros(Max2(Len(a), Len(b)) - 1)
TStep(b, a, z, x) ==
  LET y == b[1] * x + At(z, 1) IN
  [y |-> y, z |-> [k \in 1..Len(z) |-> At(z, k + 1) + x * At(b, k + 1) - y * At(a, k + 1)]]

(* ---- traces of the real code: residual of the equation on recorded values -- *)
(* x exact and y rounded, both in units 1/S; coefficients exact in units 1/64  *)
ResInit(cfg) == IF cfg.kind = "res" THEN [xs |-> Zeros(Len(cfg.b)), ys |-> Zeros(Len(cfg.a) - 1)]
                ELSE IF cfg.kind = "eq" THEN EqStart(cfg) ELSE [pos |-> 0]
AbsSum(s) == Sum([i \in 1..Len(s) |-> Abs(s[i])])
Chunk(cfg, st, x, y) ==
  FoldLeft(LAMBDA acc, k :
      LET xs == SubSeq(<<x[k]>> \o acc.xs, 1, Len(cfg.b))
          res == Dot(cfg.b, xs) - cfg.a[1] * y[k] - (IF Len(cfg.a) = 1 THEN 0 ELSE Dot(Drop(cfg.a, 1), acc.ys))
      IN  [xs |-> xs, ys |-> SubSeq(<<y[k]>> \o acc.ys, 1, Len(cfg.a) - 1),
           ok |-> acc.ok /\ Abs(res) <= AbsSum(cfg.a) + 64],
    [xs |-> st.xs, ys |-> st.ys, ok |-> TRUE], Iota(Len(x)))
InBounds(v) == \A i \in 1..Len(v) : Abs(v[i]) <= 2000000
StreamApply(cfg, st, ev) ==
  IF cfg.kind = "eq" THEN EqApply(cfg, st, ev)
  ELSE IF ev.op = "badset" THEN
       [st |-> st, bad |-> First(<< <<ev.exc \in {"ValueError", "AssertionError"}, "a memory of a wrong length is not refused">> >>)]
  ELSE IF ev.exc # "" THEN Bad(st, "processing raised " \o ev.exc)
  ELSE CASE ev.op = "chunk" ->
         IF Len(ev.y) # Len(ev.x) THEN Bad(st, "the number of outputs differs from the number of inputs")
         ELSE IF ~InBounds(ev.y) THEN Bad(st, "an output is not the filtered signal (overflow or not a number)")
         ELSE LET r == Chunk(cfg, st, ev.x, ev.y) IN
              [st |-> [xs |-> r.xs, ys |-> r.ys], bad |-> IF r.ok THEN "" ELSE "an output does not satisfy the difference equation"]
       [] ev.op = "set" ->      \* the caller starts the filter from given past inputs and outputs, newest first
         [st |-> [xs |-> ev.xs, ys |-> ev.ys], bad |-> ""]
       [] ev.op = "part" ->   \* the chunk must be the next samples of the one-pass result cfg.ref
         LET n == Len(ev.y) IN
         [st |-> [pos |-> st.pos + n],
          bad |-> First(<<
            <<n = ev.n, "a chunk has the wrong number of samples">>,
            <<st.pos + n <= Len(cfg.ref), "more samples than in one pass">>,
            <<\A i \in 1..n : st.pos + i <= Len(cfg.ref) => Abs(ev.y[i] - cfg.ref[st.pos + i]) <= 2, "chunked samples differ from one pass">> >>)]
       [] ev.op = "end" ->
         [st |-> st, bad |-> First(<< <<st.pos = Len(cfg.ref), "fewer samples than in one pass">> >>)]
       [] OTHER -> Bad(st, "unknown event")
==============================================================================
