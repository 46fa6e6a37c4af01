----------------------------- MODULE TR_ChanEst ------------------------------
EXTENDS ChanEst, TraceBase
==============================================================================
