------------------------------- MODULE LeastSq -------------------------------
(* Regularised least squares.  Data rows a (integers) and targets b.           *)
(*   ols    min |A w - b|^2                                                     *)
(*   ridge  min |A w - b|^2 + lam |w|^2                                         *)
(*   lasso  min |A w - b|^2 / (2 M) + lam |w|_1                                 *)
EXTENDS Base
Col(A, j) == [m \in 1..Len(A) |-> A[m][j]]
(* weights are kept in units 1/T *)
Resid(A, b, w, T, m) == T * b[m] - Dot(A[m], w)
Sq(x) == x * x

LsInit(cfg) == [x |-> 0]
(* cfg: A, b, kind in {"ols", "ridge", "lasso"}, lam = ln / ld; ev: w in units 1/T, ssr times qs^2 (<<>> when not reported) *)
LsApply(cfg, st, ev) ==
  LET A == cfg.A
      b == cfg.b
      M == Len(A)
      N == Len(A[1])
      T == cfg.T
      w == ev.w
      r == Force([m \in 1..M |-> Resid(A, b, w, T, m)])
      slack == Force([m \in 1..M |-> Sum([k \in 1..N |-> Abs(A[m][k])])])        \* rounding of the weights, half units
      grad(j) == Dot(Col(A, j), r)
      gtol(j) == 2 + Dot([m \in 1..M |-> Abs(A[m][j])], slack) + cfg.ln \div cfg.ld
      pen(j) == (cfg.ln * w[j]) \div cfg.ld
      \* lasso: |A(w + d e_j) - b|^2 + 2 M lam |w + d e_j|_1 minus the same at w, d = s T / D; in units 1/T
      D == 8
      aj(j) == Dot(Col(A, j), Col(A, j))
      diff(j, s) == -((2 * s * (grad(j) \div D))) + (aj(j) * (T \div D)) \div D + (2 * M * cfg.ln * (Abs(w[j] + s * (T \div D)) - Abs(w[j]))) \div cfg.ld
      bb == Dot(b, b)
      \* the solver stops at a duality gap of 10^-4 |b|^2 (twice that in this scaling of the objective)
      ltol(j) == (T * bb) \div 4000 + gtol(j) + 2 * M + aj(j)
      q == T \div cfg.qs
      sse == Sum([m \in 1..M |-> Sq(r[m] \div q)])                               \* times qs^2
      stol == Sum([m \in 1..M |-> (2 * Abs(r[m] \div q) + 2) * (1 + slack[m] \div q)])
  IN
  IF ev.op = "refuse" THEN [st |-> st, bad |-> First(<< <<ev.exc # "", "an unknown regularization was accepted">> >>)]
  ELSE IF ev.op # "solve" THEN Bad(st, "unknown event")
  ELSE IF ev.exc # "" THEN Bad(st, "solving raised " \o ev.exc)
  ELSE IF Len(w) # N THEN Bad(st, "the number of weights differs from the number of unknowns")
  ELSE IF ~ \A j \in 1..N : Abs(w[j]) <= 12 * T THEN Bad(st, "a weight is out of range")
  ELSE IF cfg.kind \in {"ols", "ridge"} /\ ~ \A j \in 1..N : Abs(grad(j) - (IF cfg.kind = "ridge" THEN pen(j) ELSE 0)) <= gtol(j)
       THEN Bad(st, "the weights do not minimize the objective")
  ELSE IF cfg.kind = "lasso" /\ ~ \A j \in 1..N : \A s \in {-1, 1} : diff(j, s) >= -ltol(j)
       THEN Bad(st, "the weights do not minimize the lasso objective")
  ELSE IF cfg.kind # "ols" /\ Len(ev.ssr) # 1 THEN Bad(st, "no residual is reported")
  ELSE IF cfg.kind = "ols" /\ M > N /\ Len(ev.ssr) # 1 THEN Bad(st, "no residual is reported")
  ELSE IF Len(ev.ssr) = 1 /\ Abs(ev.ssr[1] - sse) > 2 * M + stol THEN Bad(st, "the reported residual is not the squared error of the weights")
  ELSE Good(st)
==============================================================================
