------------------------------ MODULE TraceShape ------------------------------
(* Histories of combined features: which parts each file has. *)
EXTENDS TraceBase, Package
=============================================================================
