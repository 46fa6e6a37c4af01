------------------------------- MODULE TR_Eye --------------------------------
EXTENDS Eye, TraceBase
==============================================================================
