------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* Relations between partitions of the scenarios, shared by the design     *)
(* specification and by the conformance specification.  A partition is a   *)
(* sequence of blocks (sets of scenarios); the position of a block is the  *)
(* index under which its cost and solution are stored.                     *)
(***************************************************************************)
EXTENDS CCP

\* Sequence of sequences of scenarios, as logged -> sequence of sets.
Blocks(lp) == [k \in DOMAIN lp |-> Range(lp[k])]

(* Every scenario in exactly one block, no empty block (on the log: no     *)
(* scenario listed twice either).                                          *)
IsPartitionLog(lp, N) ==
    /\ \A k \in DOMAIN lp : Len(lp[k]) > 0
    /\ UNION {Range(lp[k]) : k \in DOMAIN lp} = 1..N
    /\ SumSeq([k \in DOMAIN lp |-> Len(lp[k])]) = N
IsPartition(part, N) ==
    /\ \A k \in DOMAIN part : part[k] # {}
    /\ UNION Range(part) = 1..N
    /\ \A k, l \in DOMAIN part : k # l => part[k] \cap part[l] = {}

NbHit(part, V) == Cardinality(HitBlocks(part, V))

(* new refines old: each new block lies within one old block. *)
Refines(new, old) == \A k \in DOMAIN new : \E l \in DOMAIN old : new[k] \subseteq old[l]
(* new coarsens old: each new block is a union of old blocks. *)
Coarsens(new, old) == Refines(old, new)

(* A refinement that refutes a point violating V, with as few splits as    *)
(* possible: V met at most p blocks of old, and meets p + 1 blocks of new. *)
Splits(old, V, p) == p + 1 - NbHit(old, V)
RefinementOK(old, new, V, p) ==
    /\ Refines(new, old)
    /\ Len(new) = Len(old) + Splits(old, V, p)
    /\ NbHit(new, V) = p + 1

(* A merge after a refinement: coarsens it, keeps the point refuted. *)
MergeOK(old, new, V, p) ==
    /\ Coarsens(new, old)
    /\ Len(new) < Len(old)
    /\ NbHit(new, V) >= p + 1
=============================================================================
