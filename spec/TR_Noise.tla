------------------------------ MODULE TR_Noise -------------------------------
EXTENDS Noise, TraceBase
==============================================================================
