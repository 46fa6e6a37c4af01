------------------------------ MODULE TR_Jitter ------------------------------
EXTENDS Jitter, TraceBase
==============================================================================
