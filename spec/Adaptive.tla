------------------------------ MODULE Adaptive ------------------------------
(***************************************************************************)
(* The adaptive partitioning method as a state machine: one action per     *)
(* step of the solver (relaxed problem, projection, split, merge, clock).  *)
(*                                                                         *)
(* The instance is an arbitrary table (see CCP.tla).  Every choice that    *)
(* the code leaves to a solver, to a random generator or to a tie is       *)
(* nondeterministic here: which optimum of the relaxed problem, which      *)
(* scenarios are kept by the projection, how a block is split, which       *)
(* feasible blocks are merged, when the clock runs out.                    *)
(***************************************************************************)
EXTENDS Oracles, TLC

CONSTANTS N,          \* scenarios
          P,          \* tolerated violations
          K,          \* non-zero points of the table
          O,          \* objectives 1..O
          MERGE,      \* merging enabled
          CLOCK,      \* time may run out
          FAULT       \* "none", or a named mutation of the design (see below)

VARIABLES T,          \* the instance: a table
          pc,         \* "ub" "lb" "split" "merge" "done" "stopped"
          part,       \* partition: sequence of blocks
          costs,      \* stored cost of each block
          ub, lb,     \* bounds
          x,          \* last relaxed solution: a point of T
          fresh,      \* positions of the blocks created by the last split
          mu,         \* number of splits of the last refinement
          mb          \* upper bound at the last merge

vars == <<T, pc, part, costs, ub, lb, x, fresh, mu, mb>>

Zero == [o |-> 0, v |-> {}]
Points == [o : 1..O, v : SUBSET (1..N)]
TablesK == {S \cup {Zero} : S \in UNION {kSubset(k, Points) : k \in 1..K}}
(* Scenarios are interchangeable: keep one table per class, cheaply -- the *)
(* first scenario violated by a point of a given size is the smallest one. *)
Canonical(S) == \A s \in 2..N :
    Cardinality({q \in S : s \in q.v}) <= Cardinality({q \in S : s - 1 \in q.v})

Feasible(q) == Cardinality(q.v) <= P
Sols(B) == {q \in T : q.v \cap B = {} /\ q.o = Cost(T, B)}
\* Bound after trying the solutions of some blocks as incumbents.  Which
\* optimal solution a solver returns is its choice, so is the improvement.
Incumbents(bs, l) == {l} \cup {q.o : q \in
    {w \in UNION {Sols(b) : b \in bs} : (Feasible(w) \/ FAULT = "anyincumbent") /\ w.o > l}}

\* Partitions of 1..N into exactly k blocks, in a canonical order.
RECURSIVE Parts_(_, _)
Parts_(n, k) ==
    IF n = 0 THEN (IF k = 0 THEN {<<>>} ELSE {})
    ELSE {Append(q, {n}) : q \in IF k = 0 THEN {} ELSE Parts_(n - 1, k - 1)}
         \cup UNION {{[q EXCEPT ![i] = @ \cup {n}] : i \in 1..k} : q \in Parts_(n - 1, k)}

(* The scenarios dealt to P + 1 blocks in turns, by decreasing cost. *)
Dealt(pt) == \E f \in Permutations(1..N) :
    /\ \A i, j \in 1..N : i < j => Cost(T, {f[i]}) >= Cost(T, {f[j]})
    /\ Range(pt) = {{f[i] : i \in {j \in 1..N : j % (P + 1) = r}} : r \in 0..P}
\* With known scenario costs the quantile bound is available.
FirstBounds(pt) == {INF} \cup
    IF Dealt(pt) THEN {Quantile([s \in 1..N |-> Cost(T, {s})], P)} ELSE {}
Start(pt) == /\ part = pt
             /\ costs = [k \in DOMAIN pt |-> Cost(T, pt[k])]
             /\ ub \in FirstBounds(pt)
             /\ lb \in {v \in Incumbents(Range(pt), -INF) : v <= ub}
             /\ x = Zero
             /\ fresh = {} /\ mu = 0 /\ mb = INF + 1
             /\ pc = "ub"
Init == /\ T \in {S \in TablesK : Canonical(S)}
        /\ \E pt \in Parts_(N, P + 1) : Start(pt)

(* Relaxed problem: any optimum.  Blocks whose cost is below the lower     *)
(* bound are given up for free (pruning).                                  *)
Pruned == {k \in DOMAIN part : costs[k] < lb \/ (FAULT = "pruneub" /\ costs[k] < ub)}
RelaxedPoints ==
    {q \in T : Cardinality(HitBlocks(part, q.v) \cup Pruned) <= P}
Upper == /\ pc = "ub"
         /\ LET R == IF RelaxedPoints = {}
                     THEN {q \in T : NbHit(part, q.v) <= P} ELSE RelaxedPoints
                v == MaxObj(R)
            IN x' \in {q \in R : q.o = v}
         /\ ub' = Min2(ub, x'.o)
         /\ IF Feasible(x') THEN lb' = ub' /\ pc' = "done"
                            ELSE lb' = lb /\ pc' = "lb"
         /\ UNCHANGED <<T, part, costs, fresh, mu, mb>>

(* Projection: enforce N - P scenarios (which ones is a heuristic).        *)
Kept == {S \in SUBSET (1..N) : Cardinality(S) = N - P - (IF FAULT = "keepfewer" THEN 1 ELSE 0)}
Lower == /\ pc = "lb"
         /\ \E S \in Kept : lb' = Max2(lb, Cost(T, S))
         /\ pc' = IF lb' = ub THEN "done" ELSE "split"
         /\ UNCHANGED <<T, part, costs, ub, x, fresh, mu, mb>>

(* One split of block k into L and the rest: both sides keep a scenario    *)
(* that x violates.                                                        *)
SplitOne(pt, k) ==
    LET B == pt[k] IN
    {Append([pt EXCEPT ![k] = L], B \ L) :
        L \in {M \in SUBSET B : M \cap x.v # {} /\ (B \ M) \cap x.v # {}}}
Splittable(pt) == {k \in DOMAIN pt : Cardinality(pt[k] \cap x.v) >= 2}
RECURSIVE SplitMany(_, _)
SplitMany(S, j) ==
    IF j = 0 THEN S
    ELSE SplitMany(UNION {UNION {SplitOne(q, k) : k \in Splittable(q)} : q \in S}, j - 1)
Split == /\ pc = "split"
         /\ mu' = Splits(part, x.v, P) - (IF FAULT = "onefewer" THEN 1 ELSE 0)
         /\ part' \in SplitMany({part}, mu')
         /\ fresh' = {k \in DOMAIN part' : k > Len(part) \/ part'[k] # part[k]}
         /\ costs' = [k \in DOMAIN part' |->
                        IF k \in fresh' THEN Cost(T, part'[k]) ELSE costs[k]]
         /\ lb' \in Incumbents({part'[k] : k \in fresh'}, lb)
         /\ pc' = IF MERGE THEN "merge" ELSE "ub"
         /\ UNCHANGED <<T, ub, x, mb>>

(* Merging: only when no new block costs more than the upper bound, and    *)
(* only if the upper bound has improved since the last merge.              *)
Unhit == {k \in DOMAIN part : part[k] \cap x.v = {}}
\* Merge the blocks at positions C into the smallest of them.
Keep(C) == {k \in DOMAIN part : k \notin C \/ k = SetMin(C)}
Order(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Merged(C) == LET s == Order(Keep(C)) IN
    [i \in 1..Len(s) |-> IF s[i] = SetMin(C) THEN UNION {part[k] : k \in C} ELSE part[s[i]]]
MergedCosts(C) == LET s == Order(Keep(C)) IN
    [i \in 1..Len(s) |-> IF s[i] = SetMin(C) /\ FAULT # "stalecost"
                         THEN Cost(T, UNION {part[k] : k \in C}) ELSE costs[s[i]]]
DoMerge(C) == /\ part' = Merged(C)
              /\ costs' = MergedCosts(C)
              /\ lb' \in Incumbents({UNION {part[k] : k \in C}}, lb)
MayMerge == /\ ub < mb \/ FAULT = "alwaysmerge"
            /\ SetMax({costs[k] : k \in fresh}) <= ub \/ FAULT = "anymerge"
Merge == /\ pc = "merge"
         /\ pc' = "ub"
         /\ IF MayMerge
            THEN /\ mb' = ub
                 /\ \/ /\ Cardinality(Unhit) = mu
                       /\ \E h \in DOMAIN part \ Unhit :
                            /\ \A g \in DOMAIN part \ Unhit : costs[g] <= costs[h]
                            /\ DoMerge(Unhit \cup {h})
                    \/ /\ Cardinality(Unhit) > mu
                       /\ \E C \in SUBSET Unhit : Cardinality(C) = mu + 1 /\ DoMerge(C)
                    \/ /\ FAULT = "mergehit" \* two refuted blocks
                       /\ \E g, h \in DOMAIN part \ Unhit : g # h /\ DoMerge({g, h})
            ELSE UNCHANGED <<part, costs, lb, mb>>
         /\ UNCHANGED <<T, ub, x, fresh, mu>>

(* The clock: the run can be cut between any two steps. *)
TimeOut == /\ CLOCK /\ pc \notin {"done", "stopped"}
           /\ pc' = "stopped"
           /\ UNCHANGED <<T, part, costs, ub, lb, x, fresh, mu, mb>>

Next == Upper \/ Lower \/ Split \/ Merge \/ TimeOut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
TypeOK == /\ pc \in {"ub", "lb", "split", "merge", "done", "stopped"}
          /\ Len(costs) = Len(part)
\* C02: the bounds bracket the optimum in every state.
Bracket == lb <= Opt(T, P) /\ Opt(T, P) <= ub
\* C01
Optimal == pc = "done" => lb = ub /\ ub = Opt(T, P)
\* C03
PartitionOK == IsPartition(part, N) /\ Len(part) >= P + 1
\* C04, C05: the last relaxed solution stays refuted.
Refuted == pc \in {"merge", "ub"} /\ mu > 0 => NbHit(part, x.v) >= P + 1
\* C05: the relaxed value of the partition never exceeds the upper bound.
RelaxOK == ub < INF => Relax(T, part, P) <= ub
\* C05: a merge never leaves more blocks than before the refinement ... (see Shrinks)
\* C06
CostsOK == \A k \in DOMAIN part : costs[k] = Cost(T, part[k])
\* C07: pruning does not change the value of the relaxed problem.
PruneOK == RelaxedPoints # {} /\ MaxObj(RelaxedPoints) = Relax(T, part, P)
\* mu is the number of splits that the code's assertion requires
SplitsOK == pc = "split" => Splits(part, x.v, P) >= 1
                            /\ SplitMany({part}, Splits(part, x.v, P)) # {}
Inv == TypeOK /\ Bracket /\ Optimal /\ PartitionOK /\ Refuted /\ RelaxOK
       /\ CostsOK /\ PruneOK /\ SplitsOK
\* C02, C05, C23: step properties
Monotone == [][ub' <= ub /\ lb' >= lb]_vars
StepRefines == [][pc = "split" /\ pc' # "stopped" => RefinementOK(part, part', x.v, P)]_vars
StepMerges == [][pc = "merge" /\ part' # part => MergeOK(part, part', x.v, P)
                                                 /\ Len(part') <= Len(part) - mu]_vars
\* C23
Terminates == <>(pc \in {"done", "stopped"})
=============================================================================
