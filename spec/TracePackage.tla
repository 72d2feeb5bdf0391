----------------------------- MODULE TracePackage -----------------------------
(* Any histories: each file must be free of defects. *)
EXTENDS TraceBase, Package
=============================================================================
