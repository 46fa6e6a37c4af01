------------------------------- MODULE TR_Link -------------------------------
EXTENDS Link, TraceBase
==============================================================================
