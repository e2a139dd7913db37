------------------------------ MODULE MC_Fido ------------------------------
(* The fido half of MC_Chain.                                               *)
EXTENDS MC_Chain
=============================================================================
