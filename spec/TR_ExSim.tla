------------------------------ MODULE TR_ExSim -------------------------------
EXTENDS ExSim, TraceBase
==============================================================================
