------------------------------ MODULE TR_Symbols -----------------------------
EXTENDS Symbols, TraceBase
==============================================================================
