----------------------------- MODULE TracePure -----------------------------
EXTENDS TraceBase, Pure
=============================================================================
