------------------------------- MODULE TR_Cdr --------------------------------
EXTENDS Cdr, TraceBase
==============================================================================
