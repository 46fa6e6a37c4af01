------------------------------ MODULE TR_Adapt -------------------------------
EXTENDS Adapt, TraceBase
==============================================================================
