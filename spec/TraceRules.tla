---------------------------- MODULE TraceRules -----------------------------
EXTENDS TraceBase, Rules
=============================================================================
