------------------------------ MODULE TR_Interp ------------------------------
EXTENDS Interp, TraceBase
==============================================================================
