------------------------------ MODULE TR_Purity ------------------------------
EXTENDS Purity, TraceBase
==============================================================================
