----------------------------- MODULE TR_Checker ------------------------------
EXTENDS Checker, TraceBase
==============================================================================
