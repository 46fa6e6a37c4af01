----------------------------- MODULE TR_Framing ------------------------------
EXTENDS Framing, TraceBase
==============================================================================
