------------------------------ MODULE MC_Piv ------------------------------
(* The piv half of MC_Chain.                                               *)
EXTENDS MC_Chain
=============================================================================
