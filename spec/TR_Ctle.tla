------------------------------- MODULE TR_Ctle -------------------------------
EXTENDS Ctle, TraceBase
==============================================================================
