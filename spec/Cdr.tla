--------------------------------- MODULE Cdr ---------------------------------
(* Mueller-Muller timing step.  Signal in units 1/us, reference in units 1/ur, *)
(* weights in units 1/uw, tolerance tn/td.                                     *)
EXTENDS Base
Post(x, r) == FoldLeft(LAMBDA acc, i : acc + r[i] * x[i + 1], 0, Iota(Len(r) - 1))
Pre(x, r) == FoldLeft(LAMBDA acc, i : acc + r[i + 1] * x[i], 0, Iota(Len(r) - 1))
Diff(x, r, wpost, wpre) == Post(x, r) * wpost - Pre(x, r) * wpre
(* |Diff / ((N-1) u)| against tn/td *)
Side(D, N, u, tn, td) == LET a == Abs(D) * td  b == tn * u * (N - 1) IN IF a < b THEN "in" ELSE IF a = b THEN "edge" ELSE "out"
Steps(D, N, u, tn, td) == CASE Side(D, N, u, tn, td) = "in" -> {0} [] Side(D, N, u, tn, td) = "out" -> {Sign(D)} [] OTHER -> IF D = 0 THEN {-1, 0, 1} ELSE {0, Sign(D)}   \* rounding decides on the edge
CdrInit(cfg) == [x |-> 0]
CdrApply(cfg, st, ev) ==
  Bad(st, First(<<
    <<ev.exc = "", "the step raised " \o ev.exc>>,
    <<ev.exc # "" \/ ev.step \in Steps(Diff(ev.x, ev.r, ev.wpost, ev.wpre), Len(ev.r), ev.u, ev.tn, ev.td), "the step has the wrong direction">> >>))
==============================================================================
