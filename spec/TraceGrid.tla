----------------------------- MODULE TraceGrid -----------------------------
EXTENDS TraceBase, Grid
=============================================================================
