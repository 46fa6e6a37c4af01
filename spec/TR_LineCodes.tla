----------------------------- MODULE TR_LineCodes ----------------------------
EXTENDS LineCodes, TraceBase
==============================================================================
