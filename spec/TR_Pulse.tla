------------------------------ MODULE TR_Pulse -------------------------------
EXTENDS Pulse, TraceBase
==============================================================================
