------------------------------- MODULE Lemmas -------------------------------
(***************************************************************************)
(* Facts that the method rests on, checked on every small table: why the   *)
(* clauses of Trace.tla are the right ones to ask of each component.       *)
(* One state per table; every lemma is an invariant.                       *)
(***************************************************************************)
EXTENDS Oracles, TLC
CONSTANTS N, P, K, O
VARIABLE T
Zero == [o |-> 0, v |-> {}]
Points == [o : 1..O, v : SUBSET (1..N)]
Tables == {S \cup {Zero} : S \in UNION {kSubset(k, Points) : k \in 1..K}}
Canonical(S) == \A s \in 2..N :
    Cardinality({q \in S : s \in q.v}) <= Cardinality({q \in S : s - 1 \in q.v})
RECURSIVE Parts_(_, _)
Parts_(n, k) ==
    IF n = 0 THEN (IF k = 0 THEN {<<>>} ELSE {})
    ELSE {Append(q, {n}) : q \in IF k = 0 THEN {} ELSE Parts_(n - 1, k - 1)}
         \cup UNION {{[q EXCEPT ![i] = @ \cup {n}] : i \in 1..k} : q \in Parts_(n - 1, k)}
AllParts == UNION {Parts_(N, k) : k \in (P + 1)..N}
Init == T \in {S \in Tables : Canonical(S)}
Next == FALSE /\ T' = T
Spec == Init /\ [][Next]_T

Scen == [s \in 1..N |-> Cost(T, {s})]
(* Dealing the scenarios in turns to w blocks, the dearest first; ties are *)
(* broken in any way.                                                      *)
Deals(w) == {[k \in 1..w |-> {f[j] : j \in {j \in 1..N : (j - 1) % w = k - 1}}] :
               f \in {f \in [1..N -> 1..N] :
                        /\ Range(f) = 1..N
                        /\ \A j \in 1..(N - 1) : Scen[f[j]] >= Scen[f[j + 1]]}}

\* C13: the (p+1)-th smallest scenario cost bounds the optimum.
QuantileBound == Opt(T, P) <= Quantile(Scen, P)
\* C13: with equal weights, the weighted quantile is the plain one.
QuantileUniform == Quantile(Scen, P) = WQuantile(Scen, [s \in 1..N |-> 1], P, N)
\* C13, C21: the relaxed problem of p+1 blocks is the cheapest block, ...
FirstBound == \A part \in Parts_(N, P + 1) :
    Relax(T, part, P) = SetMax({Cost(T, part[k]) : k \in DOMAIN part})
\* C21: ... and dealing keeps it below the quantile bound.
DealtBound == \A part \in Deals(P + 1) :
    /\ IsPartition(part, N)
    /\ \A j, k \in DOMAIN part : Cardinality(part[j]) <= Cardinality(part[k]) + 1
    /\ Relax(T, part, P) <= Quantile(Scen, P)
\* C02: every partition into p+1 blocks or more relaxes the problem, ...
Relaxation == \A part \in AllParts : Opt(T, P) <= Relax(T, part, P)
\* C01: ... and the finest one is exact.
Finest == Relax(T, [s \in 1..N |-> {s}], P) = Opt(T, P)
\* C09, C11: the optimum is the best projection.
Projections == Opt(T, P) = SetMax({Cost(T, S) : S \in kSubset(N - P, 1..N)})
\* C04: a minimal refinement exists, and tightens the relaxation.
Split2(part, k, L) == Append([part EXCEPT ![k] = L], part[k] \ L)
SplitLemma == \A part \in AllParts : \A k \in DOMAIN part :
    \A L \in SUBSET part[k] \ {{}, part[k]} :
       /\ Relax(T, Split2(part, k, L), P) <= Relax(T, part, P)
       /\ Refines(Split2(part, k, L), part)
       /\ IsPartition(Split2(part, k, L), N)
RefineExists == \A part \in AllParts : \A q \in T :
    (NbHit(part, q.v) <= P /\ Cardinality(q.v) > P)
       => \E k \in DOMAIN part : Cardinality(part[k] \cap q.v) >= 2
\* C05: a merge coarsens, and can only loosen the relaxation.
MergeLemma == \A part \in AllParts : \A j, k \in DOMAIN part :
    j < k => LET new == [i \in 1..(Len(part) - 1) |->
                           IF i = j THEN part[j] \cup part[k]
                           ELSE part[IF i < k THEN i ELSE i + 1]]
             IN /\ Coarsens(new, part) /\ IsPartition(new, N)
                /\ Len(new) > P => Relax(T, new, P) >= Relax(T, part, P)
\* C06: the cost of a block is at most the cost of any part of it.
CostMonotone == \A S \in SUBSET (1..N) : \A R \in SUBSET S : Cost(T, S) <= Cost(T, R)
\* C07: giving up the blocks cheaper than a feasible value is harmless.
PruneLemma == \A part \in AllParts : \A f \in {q.o : q \in {w \in T : Cardinality(w.v) <= P}} :
    LET cut == {k \in DOMAIN part : Cost(T, part[k]) < f}
        R == {q \in T : Cardinality(HitBlocks(part, q.v) \cup cut) <= P}
    IN R # {} /\ MaxObj(R) = Relax(T, part, P)
\* C18: a split never costs more than the block.. and at best its dearest half
SplitCostLemma == \A q \in T : \A S \in SUBSET (1..N) :
    Cardinality(S \cap q.v) >= 2 =>
       /\ SplitsOf(S, q.v) # {}
       /\ BestSplit(T, S, q.v) >= Cost(T, S)
\* C12: the best feasible candidate is a valid lower bound.
CandidateLemma == \A q \in T : Cardinality(q.v) <= P => q.o <= Opt(T, P)
\* C22: deleting positions shifts the later ones.
Delete(q, D) == LET s == SetToSortSeq(DOMAIN q \ D, LAMBDA a, b : a < b)
                IN [i \in DOMAIN s |-> q[s[i]]]
ShiftLemma == \A part \in AllParts : \A D \in SUBSET DOMAIN part :
    \A k \in DOMAIN part \ D : Delete(part, D)[NewPosition(k, D)] = part[k]
=============================================================================
