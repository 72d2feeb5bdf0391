------------------------------ MODULE TraceResave -----------------------------
EXTENDS TraceBase, Resave
=============================================================================
