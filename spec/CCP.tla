-------------------------------- MODULE CCP --------------------------------
(***************************************************************************)
(* What the programs of AdaptiveCC are about: a linear packing problem     *)
(*                                                                         *)
(*     max c x   s.t.  A_s x <= b for all but p of the N scenarios s,      *)
(*                     x in {0,1}^n  or  x in [0,1]^n,                     *)
(*                                                                         *)
(* p = floor(epsilon N).  Everything here is exact integer arithmetic.     *)
(*                                                                         *)
(* An instance is a record                                                 *)
(*   n, m, N   variables, rows per scenario, scenarios                     *)
(*   c, A, b   data in tenths: A[s][i][j], b[i], c[j]                      *)
(*   en, ed    epsilon = en/ed                                             *)
(*   cont      1 if the variables are continuous                           *)
(*                                                                         *)
(* An instance denotes a TABLE: a set of points [o, v], o the objective in *)
(* thousandths and v the set of violated scenarios.  The table contains    *)
(* every 0/1 point (binary), or every vertex of the arrangement of all the *)
(* scenario rows and the bounds (continuous): an optimum of every problem  *)
(* below is then one of its points.  All the semantics is defined on the   *)
(* table, so the design specification (Adaptive.tla) runs on arbitrary     *)
(* tables, and the conformance specification (Trace.tla) on the tables of  *)
(* the instances that were really solved.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == 2000000000        \* encodes +infinity (and -INF encodes -infinity)
NAV == 2100000000        \* encodes "not a value": None, nan
XS  == 100000            \* scale of continuous coordinates

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
SetMax(S)  == CHOOSE a \in S : \A q \in S : a >= q
SetMin(S)  == CHOOSE a \in S : \A q \in S : a <= q

RECURSIVE DotR(_, _, _)
DotR(a, x, j) == IF j = 0 THEN 0 ELSE a[j] * x[j] + DotR(a, x, j - 1)
Dot(a, x) == DotR(a, x, Len(a))

RECURSIVE SumSeqR(_, _)
SumSeqR(a, j) == IF j = 0 THEN 0 ELSE a[j] + SumSeqR(a, j - 1)
SumSeq(a) == SumSeqR(a, Len(a))

\* floor(10^q * num / den) for 0 < den, by long division; INF if too large
RECURSIVE LongDiv(_, _, _, _)
LongDiv(q, acc, rem, den) ==
    IF q = 0 THEN acc
    ELSE IF acc >= 200000000 THEN INF
    ELSE IF acc <= -200000000 THEN -INF
    ELSE LongDiv(q - 1, 10 * acc + (10 * rem) \div den, (10 * rem) % den, den)
ScaleDiv(q, num, den) == LongDiv(q, num \div den, num % den, den)
MulDiv(k, num, den) == ScaleDiv(CASE k = 10 -> 1 [] k = 100 -> 2 [] k = 1000 -> 3
                                  [] k = 100000 -> 5 [] k = 1000000000 -> 9, num, den)

---------------------------------------------------------------------------
(* The chance constraint: how many scenarios may be violated.             *)
Tolerated(I) == (I.en * I.N) \div I.ed

(* Scenario s (1-based) is violated by the 0/1 point x. *)
Violated(I, x) == {s \in 1..I.N : \E i \in 1..I.m : Dot(I.A[s][i], x) > I.b[i]}

(* Continuous points are logged in fixed point (scale XS), so a row is     *)
(* certainly violated / possibly violated within SLACK.                    *)
SLACK == 300
MustViolate(I, x) ==
    IF I.cont = 0 THEN Violated(I, x)
    ELSE {s \in 1..I.N : \E i \in 1..I.m : Dot(I.A[s][i], x) > I.b[i] * XS + SLACK}
MayViolate(I, x) ==
    IF I.cont = 0 THEN Violated(I, x)
    ELSE {s \in 1..I.N : \E i \in 1..I.m : Dot(I.A[s][i], x) > I.b[i] * XS - SLACK}
(* A well-formed logged point: right length, within its bounds. *)
IsPoint(I, x) == /\ Len(x) = I.n
                 /\ \A j \in 1..I.n : IF I.cont = 0 THEN x[j] \in {0, 1}
                                      ELSE -1 <= x[j] /\ x[j] <= XS + 1
(* Objective of a logged point, in thousandths. *)
Obj(I, x) == IF I.cont = 0 THEN 100 * Dot(I.c, x)
             ELSE LET t == Dot(I.c, x) IN MulDiv(100, t, XS)

---------------------------------------------------------------------------
(* The table of a binary instance. *)
Bits(n, k) == [j \in 1..n |-> (k \div (2 ^ (j - 1))) % 2]
BinTable(I) == {LET x == Bits(I.n, k)
                IN [o |-> 100 * Dot(I.c, x), v |-> Violated(I, x), x |-> x] : k \in 0..(2 ^ I.n - 1)}

(* The table of a continuous instance, n = 1, 2 or 3: vertices by Cramer.  *)
Unit(n, j, q) == [t \in 1..n |-> IF t = j THEN q ELSE 0]
Rows(I) == {[a |-> I.A[s][i], b |-> I.b[i]] : s \in 1..I.N, i \in 1..I.m}
           \cup {[a |-> Unit(I.n, j, 1), b |-> 1] : j \in 1..I.n}
           \cup {[a |-> Unit(I.n, j, -1), b |-> 0] : j \in 1..I.n}
Det2(a, b, c, d) == a * d - b * c
Det3(u, v, w) == u[1] * Det2(v[2], v[3], w[2], w[3])
                 - u[2] * Det2(v[1], v[3], w[1], w[3])
                 + u[3] * Det2(v[1], v[2], w[1], w[2])
Col(u, j, b) == [u EXCEPT ![j] = b]
(* <<D, D_1, ..., D_n>> with x_j = D_j / D, or D = 0. *)
Solve1(r) == <<r.a[1], r.b>>
Solve2(r, q) == <<Det2(r.a[1], r.a[2], q.a[1], q.a[2]),
                  Det2(r.b, r.a[2], q.b, q.a[2]),
                  Det2(r.a[1], r.b, q.a[1], q.b)>>
Solve3(r, q, w) == <<Det3(r.a, q.a, w.a)>>
    \o [j \in 1..3 |-> Det3(Col(r.a, j, r.b), Col(q.a, j, q.b), Col(w.a, j, w.b))]
Positive(D) == IF D[1] < 0 THEN [j \in DOMAIN D |-> -D[j]] ELSE D
Systems(I) ==
    LET R == Rows(I) IN
    CASE I.n = 1 -> {Solve1(r) : r \in R}
      [] I.n = 2 -> {Solve2(r, q) : r \in R, q \in R}
      [] I.n = 3 -> LET Q == SetToSeq(R)
                        K == {t \in (1..Len(Q)) \X (1..Len(Q)) \X (1..Len(Q)) :
                                t[1] < t[2] /\ t[2] < t[3]}
                    IN {Solve3(Q[t[1]], Q[t[2]], Q[t[3]]) : t \in K}
Corners(I) == {Positive(D) : D \in {Q \in Systems(I) : Q[1] # 0}}
InBox(D) == \A j \in 2..Len(D) : 0 <= D[j] /\ D[j] <= D[1]
ContTable(I) ==
    {LET y == Tail(D) IN
       [o |-> MulDiv(100, Dot(I.c, y), D[1]),
        x |-> D,
        v |-> {s \in 1..I.N : \E i \in 1..I.m : Dot(I.A[s][i], y) > I.b[i] * D[1]}]
     : D \in {Q \in Corners(I) : InBox(Q)}}

Table(I) == IF I.cont = 0 THEN BinTable(I) ELSE ContTable(I)

---------------------------------------------------------------------------
(* Optimal values on a table T.                                            *)
RECURSIVE MaxObjR(_, _)
MaxObjR(S, best) == IF S = {} THEN best
                    ELSE LET q == CHOOSE q \in S : TRUE
                         IN MaxObjR({w \in S : w.o > q.o}, q.o)
MaxObj(S) == MaxObjR(S, -INF)

(* Optimum when exactly the scenarios of S are enforced. *)
Cost(T, S) == MaxObj({q \in T : q.v \cap S = {}})
(* Optimum of the chance-constrained problem. *)
Opt(T, p) == MaxObj({q \in T : Cardinality(q.v) <= p})
(* Optimum of the partitioned problem: all blocks but p must be satisfied. *)
HitBlocks(part, V) == {k \in DOMAIN part : part[k] \cap V # {}}
Relax(T, part, p) == MaxObj({q \in T : Cardinality(HitBlocks(part, q.v)) <= p})

(* Comparison of a logged value with an exact one: absolute 20 (0.02) for   *)
(* solver and encoding noise, relative 1e-4 for the MIP gap of the code.   *)
Tol(a) == 20 + Abs(a) \div 10000
Near(a, x) == Abs(a) < INF /\ Abs(a - x) <= Tol(x)
AtLeast(a, x) == a # NAV /\ (a >= INF \/ a >= x - Tol(x))
NotAbove(a, x) == x >= INF \/ a <= x + Tol(x)     \* two logged values
AtMost(a, x) == a <= -INF \/ (a < INF /\ a <= x + Tol(x))
=============================================================================
