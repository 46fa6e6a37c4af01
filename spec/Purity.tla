------------------------------- MODULE Purity --------------------------------
(* The library as a set of pure functions.  A history is a sequence of calls;  *)
(* call i is a function together with fixed arguments.  The caller's arguments *)
(* live in a store the library may only read, and results belong to the caller *)
(* who may overwrite them.                                                     *)
EXTENDS Base
(* state: seen, the results observed so far by call (0 = none) *)
PureInit(cfg) == [seen |-> Zeros(cfg.n)]
(* ev: id, before/after fingerprints of the arguments, res the result's class, exc *)
PureApply(cfg, st, ev) ==
  IF ev.op # "call" THEN Bad(st, "unknown event")
  ELSE IF ev.exc # "" THEN Bad(st, ev.name \o " raised " \o ev.exc)
  ELSE IF ev.after # ev.before THEN Bad(st, ev.name \o " modified its arguments")
  ELSE IF st.seen[ev.id] # 0 /\ st.seen[ev.id] # ev.res THEN Bad(st, ev.name \o " returned another result when repeated")
  ELSE IF ev.res # 1 THEN Bad(st, ev.name \o " returned another result than in a fresh state")
  ELSE Good([seen |-> [st.seen EXCEPT ![ev.id] = ev.res]])
==============================================================================
