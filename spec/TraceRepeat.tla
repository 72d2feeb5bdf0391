------------------------------ MODULE TraceRepeat -----------------------------
EXTENDS TraceBase, Resave
=============================================================================
