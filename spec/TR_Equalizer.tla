---------------------------- MODULE TR_Equalizer -----------------------------
EXTENDS Equalizer, TraceBase
==============================================================================
