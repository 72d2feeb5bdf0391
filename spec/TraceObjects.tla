---------------------------- MODULE TraceObjects ---------------------------
EXTENDS TraceBase, Objects
=============================================================================
