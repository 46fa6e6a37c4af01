------------------------------ MODULE TR_EqEst -------------------------------
EXTENDS EqEst, TraceBase
==============================================================================
