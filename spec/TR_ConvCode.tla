---------------------------- MODULE TR_ConvCode ------------------------------
EXTENDS ConvCode, TraceBase
==============================================================================
