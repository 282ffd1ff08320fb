----------------------------- MODULE LinLemmas -----------------------------
(***************************************************************************)
(* Facts about the linear data (big-M values, pairwise violations, the     *)
(* chance constraint itself), on every small instance with one row.        *)
(***************************************************************************)
EXTENDS Oracles, TLC
CONSTANTS n, N, CONT, COEFS, CAPS
VARIABLE I
Rw == [1..n -> COEFS]
Init == \E A \in [1..N -> Rw], b \in CAPS, c \in [1..n -> COEFS], en \in 0..(N - 1) :
    I = [n |-> n, m |-> 1, N |-> N, c |-> c, A |-> [s \in 1..N |-> <<A[s]>>],
         b |-> <<b>>, en |-> en, ed |-> N, cont |-> CONT]
Next == FALSE /\ I' = I
Spec == Init /\ [][Next]_I

T == Table(I)
p == Tolerated(I)
Sat == {q \in T : Cardinality(q.v) <= p}
a(s) == I.A[s][1]
Ex(s, q) == Excess(I, a(s), I.b[1], q.x)

\* C10: violating at most p scenarios is violating at most an epsilon part.
Chance == \A k \in 0..N : (k <= p) <=> (k * I.ed <= I.en * I.N)
\* C08: the naive big-M is the largest excess over the box, ...
Naive == \A s \in 1..N : \A q \in T : Ex(s, q) <= 100 * (SumSeq(a(s)) - I.b[1])
\* ... the knapsack bound holds for the points below an upper bound, ...
Belotti == \A s \in 1..N : \A q \in T :
    Ex(s, q) <= Knap(a(s), I.b[1], I.c, q.o \div 100 + 1) + 3
\* ... and the quantile of the pairwise bounds for the relaxed points.
Pairs(s) == [t \in 1..N |-> PairExcess(I, s, t, 1, {1})]
Song == \A s \in 1..N : \A q \in Sat : Ex(s, q) <= Quantile(Pairs(s), p) + 3
SongParts == \A s \in 1..N : \A h \in 2..N :   \* blocks {1..h-1}, {h}, .., {N}
    LET part == <<1..(h - 1)>> \o [k \in 1..(N - h + 1) |-> {h + k - 1}]
        agg == [k \in DOMAIN part |-> SetMin({Pairs(s)[t] : t \in part[k]})]
    IN Len(part) > p =>
       \A q \in T : NbHit(part, q.v) <= p => Ex(s, q) <= Quantile(agg, p) + 3
\* C15: the knapsack value bounds every point, and a vertex attains it.
KnapLemma == \A s, t \in 1..N :
    LET J == [I EXCEPT !.N = 1, !.A = <<I.A[t]>>, !.cont = 1]
        V == {q \in ContTable(J) : q.v = {}}
        k == Knap(a(s), I.b[1], a(t), I.b[1])
    IN /\ \A q \in V : Excess(J, a(s), I.b[1], q.x) <= k + 3
       /\ \E q \in V : Excess(J, a(s), I.b[1], q.x) >= k - 3
\* The vertices contain an optimum: no 0/1 point does better.
Vertices == CONT = 1 =>
    \A S \in SUBSET (1..N) :
       /\ Cost(T, S) + 3 >= Cost(BinTable([I EXCEPT !.cont = 0]), S)
       /\ Cost(T, S) > -INF
\* C18: multipliers bound what points are worth, and some multiplier of a
\* single row does so exactly (for continuous variables).
Rates == {0, 500} \cup {(1000 * I.c[j]) \div w : j \in 1..n, w \in COEFS \ {0}}
Duality ==
    /\ \A S \in {<<1>>, <<N>>, <<1, N>>} : \A y \in [DOMAIN S -> Rates] :
          Cost(T, Range(S)) <= DualBound(I, S, [k \in DOMAIN S |-> <<y[k]>>]) + 3
    /\ CONT = 1 => \A s \in 1..N :
          SetMin({DualBound(I, <<s>>, <<<<y>>>>) : y \in Rates}) <= Cost(T, {s}) + 10
=============================================================================
