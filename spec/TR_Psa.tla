------------------------------- MODULE TR_Psa --------------------------------
EXTENDS Psa, TraceBase
==============================================================================
