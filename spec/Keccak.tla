------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* The hash as the specification uses it.  TLC evaluates Keccak256 by      *)
(* harness/tlc/Keccak.java, a hundred times faster than the definition;    *)
(* MCKeccak checks that the two agree.                                     *)
(***************************************************************************)
EXTENDS KeccakPure
Keccak256(msg) == PureKeccak256(msg)
=============================================================================
