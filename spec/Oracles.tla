------------------------------ MODULE Oracles ------------------------------
(***************************************************************************)
(* Exact oracles for the components of the method, on integer data.        *)
(***************************************************************************)
EXTENDS Parts

(* C13: the (p+1)-th smallest scenario cost bounds the optimum: a feasible *)
(* point satisfies one of the p+1 cheapest scenarios.                      *)
Smallest(costs, k) == SortSeq(costs, LAMBDA a, b : a < b)[k]
Quantile(costs, p) == Smallest(costs, p + 1)
(* General weights w (summing to W) and risk en/ed: the smallest cost such *)
(* that the scenarios costing no more weigh more than the risk.            *)
WeightUpTo(costs, w, t) ==
    LET f == [s \in DOMAIN costs |-> IF costs[s] <= t THEN w[s] ELSE 0] IN SumSeq(f)
WQuantile(costs, w, en, ed) ==
    SetMin({t \in Range(costs) : WeightUpTo(costs, w, t) * ed > en * SumSeq(w)})

(* C08: excess a x - b at a point of the table, in thousandths. *)
Excess(I, a, b, x) ==
    IF I.cont = 0 THEN 100 * (Dot(a, x) - b)
    ELSE MulDiv(100, Dot(a, Tail(x)) - b * x[1], x[1])

(* C11: violation as the projection sees it (threshold 1e-3). *)
SlackViolate(I, x, sure) ==
    IF I.cont = 0 THEN Violated(I, x)
    ELSE {s \in 1..I.N : \E i \in 1..I.m :
            Dot(I.A[s][i], x) > I.b[i] * XS + (IF sure THEN 1300 ELSE 700)}
WholeData(I) == /\ \A s \in 1..I.N, i \in 1..I.m, j \in 1..I.n :
                      I.A[s][i][j] % 10 = 0 /\ I.A[s][i][j] <= 400
                /\ \A i \in 1..I.m : I.b[i] % 10 = 0
Over(I, x, s, i) == Max2(Dot(I.A[s][i], x) - I.b[i], 0) \div 10
Norm2(I, s, i) == LET f == [j \in 1..I.n |-> (I.A[s][i][j] \div 10) * (I.A[s][i][j] \div 10)]
                  IN SumSeq(f)
(* max_i over/norm of s is at most that of u. *)
LessViolated(I, x, s, u) ==
    \A i \in 1..I.m : Over(I, x, s, i) > 0 =>
       \E j \in 1..I.m : /\ Over(I, x, u, j) > 0
                         /\ Over(I, x, s, i) * Over(I, x, s, i) * Norm2(I, u, j)
                            <= Over(I, x, u, j) * Over(I, x, u, j) * Norm2(I, s, i)
LeastViolated(I, x, S) ==
    \A s \in S, u \in (1..I.N) \ S : LessViolated(I, x, s, u)

(* C05: the margin of a block, the least (b - a x) / norm(a) over its rows; *)
(* here: that of C is at least that of D, both being satisfied.            *)
SlackData(I) == WholeData(I) /\ I.n <= 8 /\ \A i \in 1..I.m : I.b[i] <= 3200
Slack(I, x, s, i) == Max2(I.b[i] - Dot(I.A[s][i], x), 0) \div 10
Norm2Or1(I, s, i) == Max2(Norm2(I, s, i), 1)
MoreSlack(I, x, C, D) ==
    \A s \in C, i \in 1..I.m : \E t \in D, j \in 1..I.m :
        Slack(I, x, t, j) * Slack(I, x, t, j) * Norm2Or1(I, s, i)
        <= Slack(I, x, s, i) * Slack(I, x, s, i) * Norm2Or1(I, t, j)

(* C15: max a x - b over 0 <= x <= 1, w x <= cap: a fractional knapsack.   *)
(* Its dual is piecewise linear in the multiplier of the capacity, with    *)
(* breakpoints 0 and a_j / w_j; in thousandths.                            *)
Knap(a, b, w, cap) ==
    LET at0 == 100 * SumSeq(a)
        at(k) == LET f == [j \in DOMAIN a |-> Max2(0, a[j] * w[k] - a[k] * w[j])]
                 IN MulDiv(100, a[k] * cap + SumSeq(f), w[k])
    IN SetMin({at0} \cup {at(k) : k \in {k \in DOMAIN a : w[k] > 0}}) - 100 * b
(* Largest excess of row i of s when scenario t is satisfied, by the best  *)
(* of the rows of t.                                                       *)
PairExcess(I, s, t, i, L) ==
    SetMin({Knap(I.A[s][i], I.b[i], I.A[t][k], I.b[k]) : k \in L})

(* What the points that satisfy the scenarios of the list S are worth at     *)
(* most, given multipliers y of their rows, in thousandths (weak duality).  *)
DualBound(I, S, y) ==
    LET rows == [k \in DOMAIN S |-> Dot(I.b, y[k])]
        col(j) == 1000 * I.c[j]
                  - SumSeq([k \in DOMAIN S |-> SumSeq([i \in 1..I.m |-> I.A[S[k]][i][j] * y[k][i]])])
    IN (SumSeq(rows) + SumSeq([j \in 1..I.n |-> Max2(0, col(j))])) \div 10 + 1

(* C18: the least possible larger cost over all splits. *)
SplitsOf(S, V) == {L \in SUBSET S : L \cap V # {} /\ (S \ L) \cap V # {}}
SplitCost(T, L, R) == Max2(Cost(T, L), Cost(T, R))
BestSplit(T, S, V) == SetMin({SplitCost(T, L, S \ L) : L \in SplitsOf(S, V)})

(* A block split again and again: parts (a set of blocks) come from S by    *)
(* best splits only, each into two parts that both meet V.                 *)
RECURSIVE BestSplitsOf(_, _, _, _)
BestSplitsOf(T, S, V, parts) ==
    \/ Cardinality(parts) = 1
    \/ \E G \in (SUBSET parts) \ {{}, parts} :
         LET L == UNION G
             H == parts \ G
         IN /\ L \cap V # {} /\ UNION H \cap V # {}
            /\ Near(SplitCost(T, L, UNION H), BestSplit(T, S, V))
            /\ BestSplitsOf(T, L, V, G)
            /\ BestSplitsOf(T, UNION H, V, H)

(* The partitions (sets of blocks) reached by n splits, each of a block     *)
(* whose best split costs the most among those not above ub, or else the   *)
(* least, by a best split.  Values within the tolerance may go either way. *)
NextSplits(T, V, ub, B) ==
    LET X == {S \in B : Cardinality(S \cap V) >= 2}
        b == [S \in X |-> BestSplit(T, S, V)]
        sure == {S \in X : b[S] < ub - 2 * Tol(b[S])}
        may == {S \in X : b[S] <= ub + 2 * Tol(b[S])}
    IN {S \in may : \A R \in sure : b[S] >= b[R] - 2 * Tol(b[R])}
       \cup (IF sure # {} THEN {}
             ELSE {S \in X : \A R \in X : b[S] <= b[R] + 2 * Tol(b[R])})
RECURSIVE SplitReach(_, _, _, _, _)
SplitReach(T, V, ub, n, B) ==
    IF n = 0 THEN {B}
    ELSE UNION {UNION {SplitReach(T, V, ub, n - 1, (B \ {S}) \cup {L, S \ L}) :
                         L \in {L \in SplitsOf(S, V) :
                                 Near(SplitCost(T, L, S \ L), BestSplit(T, S, V))}} :
                  S \in NextSplits(T, V, ub, B)}

(* C19: rounding to one decimal of data given in 1/10000. *)
Round1(a) == (a + 500) \div 1000

(* C22: position of block k once the blocks of D are deleted. *)
NewPosition(k, D) == k - Cardinality({d \in D : d < k})

(* C14: number of occurrences of row r in a sequence of rows. *)
Occurs(r, q) == Cardinality({k \in DOMAIN q : q[k] = r})
SameRows(q, w) == /\ Len(q) = Len(w)
                  /\ \A k \in DOMAIN q : Occurs(q[k], q) = Occurs(q[k], w)
=============================================================================
