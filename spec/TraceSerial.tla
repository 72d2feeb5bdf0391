---------------------------- MODULE TraceSerial ----------------------------
EXTENDS TraceBase, Serial
=============================================================================
