---------------------------- MODULE TR_BlockCode -----------------------------
EXTENDS BlockCode, TraceBase
==============================================================================
