------------------------------- MODULE TR_Prbs -------------------------------
EXTENDS Prbs, TraceBase
==============================================================================
