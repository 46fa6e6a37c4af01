----------------------------- MODULE TR_LeastSq ------------------------------
EXTENDS LeastSq, TraceBase
==============================================================================
