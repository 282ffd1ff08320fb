---------------------------- MODULE AdaptiveHist ----------------------------
(***************************************************************************)
(* The adaptive method with the history of the partitions that an          *)
(* iteration began with: none of them returns (C23), even when merges undo *)
(* earlier refinements, and the bounds close in between.                   *)
(***************************************************************************)
EXTENDS Adaptive

VARIABLE seen       \* partitions at the start of an iteration

SpecH == /\ Init /\ seen = {Range(part)}
         /\ [][Next /\ seen' = IF pc' = "ub" THEN seen \cup {Range(part')} ELSE seen]_<<vars, seen>>
NoRepeat == [][pc' = "ub" /\ pc # "ub" => Range(part') \notin seen]_<<vars, seen>>
\* Without merging, at most N - P iterations (at least one).
Iterations == ~MERGE => Cardinality(seen) <= Max2(N - P, 1)
=============================================================================
