------------------------------ MODULE TraceCharts ---------------------------
EXTENDS TraceBase, Charts
=============================================================================
