------------------------------- MODULE TR_Lms --------------------------------
EXTENDS Lms, TraceBase
==============================================================================
