------------------------------ MODULE TraceBase ------------------------------
(* Generic trace checker.  TRACE_FILE holds one JSON object per line,          *)
(*    [id |-> .., cfg |-> [..], ev |-> << event, event, ... >>]                *)
(* recorded from the real code.  A component supplies                          *)
(*    InitSt(cfg)            the specification's initial state                 *)
(*    Apply(cfg, st, ev)     [st |-> next state, bad |-> ""] when the event is *)
(*                           a step the specification allows, otherwise bad    *)
(*                           names the violated clause.                        *)
(* Every trace is an initial state; every event is one transition.  A rejected *)
(* event ends its trace and is reported; verdicts are total.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS InitSt(_), Apply(_, _, _)

VARIABLES t, l, st, bad
tvars == <<t, l, st, bad>>

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == /\ t \in 1..Len(Traces)
         /\ l = 0
         /\ st = InitSt(Traces[t].cfg)
         /\ bad = ""

TNext == /\ bad = ""
         /\ l < Len(Traces[t].ev)
         /\ LET r == Apply(Traces[t].cfg, st, Traces[t].ev[l + 1])
            IN  /\ st' = r.st
                /\ bad' = r.bad
                /\ l' = l + 1
                /\ t' = t
                /\ IF r.bad = "" THEN TRUE
                   ELSE PrintT("@REJECT " \o ToString(t) \o " " \o ToString(l + 1) \o " " \o r.bad)

TSpec == TInit /\ [][TNext]_tvars

(* the conformance property itself; the runner collects all rejections instead *)
(* of stopping at the first, so this is not listed as an INVARIANT             *)
Conforms == bad = ""
==============================================================================
