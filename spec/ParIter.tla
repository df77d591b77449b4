-------------------------------- MODULE ParIter --------------------------------
(***************************************************************************)
(* Collected parallel iterations (C17): what each way of consuming a store  *)
(* of n elements gives, as a list of indices.  The list is a function of n  *)
(* alone: it does not mention the pool or how the range is split.           *)
(***************************************************************************)
EXTENDS MerkleCore
CONSTANTS Sizes, Pools, Grains
VARIABLE c
Init == c \in Sizes \X Pools \X Grains
Next == UNCHANGED c
Emit == Say([k |-> "pariter", n |-> c[1], pool |-> c[2], grain |-> c[3]])
=============================================================================
