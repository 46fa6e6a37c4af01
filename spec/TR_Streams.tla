----------------------------- MODULE TR_Streams ------------------------------
EXTENDS Streams, TraceBase
==============================================================================
