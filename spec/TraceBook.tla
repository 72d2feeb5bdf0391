------------------------------ MODULE TraceBook -----------------------------
EXTENDS TraceBase, Book
=============================================================================
