------------------------------- MODULE TR_Lock -------------------------------
EXTENDS Lock, TraceBase
==============================================================================
