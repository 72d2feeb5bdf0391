----------------------------- MODULE TraceTexts -----------------------------
EXTENDS TraceBase, Texts
=============================================================================
