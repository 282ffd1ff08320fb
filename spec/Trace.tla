------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: checks a trace recorded from the real code, line by line,  *)
(* against the specification.  The state follows the run (the instance and *)
(* its table, the partition, the bounds, the last relaxed solution, ...);  *)
(* each event is judged by named clauses, grouped by property.  Verdicts   *)
(* are total: a failing clause prints <<"BAD", line, property, clause>>,   *)
(* the logged state is adopted, and the rest of the trace is checked too.  *)
(*                                                                         *)
(* Environment: TRACE the file, PROP the property whose clauses are judged *)
(* ("ALL": every clause).                                                  *)
(***************************************************************************)
EXTENDS Parts, Oracles, Cells, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
Sel(p) == PROP = "ALL" \/ PROP = p

VARIABLES l,      \* next line
          st,     \* state of the run
          cov     \* clause -> number of evaluations

vars == <<l, st, cov>>

(* One clause: property, name, antecedent, predicate.  Lazily evaluated.   *)
Cl(p, k, on, ok) == IF ~Sel(p) THEN <<>>
                    ELSE IF ~on THEN <<>> ELSE << <<p, k, ok>> >>

Empty == [I |-> [n |-> 0, N |-> 0], g |-> [x |-> 0], T |-> {}, p |-> 0, opt |-> 0,
          full |-> TRUE,               \* T is the whole table, .opt the optimum
          hi |-> INF,                  \* otherwise: least upper bound claimed
          part |-> <<>>, ipart |-> <<>>, ub |-> INF, lb |-> -INF,
          x |-> <<>>, z |-> <<>>, zpart |-> <<>>, inf |-> {}, cnt |-> <<>>,
          k |-> 0, adopted |-> TRUE,
          bub |-> INF, blb |-> -INF,   \* best values returned so far
          mu |-> 0,                    \* splits of the last refinement
          due |-> FALSE,               \* it has to be followed by a merge
          mub |-> INF,                 \* upper bound at the last merge
          seen |-> {},                 \* partitions at the start of an iteration
          sure |-> TRUE]               \* .cnt counts without doubt

Has(e, f) == f \in DOMAIN e

---------------------------------------------------------------------------
(* inst: a new instance / run.                                             *)
(* Instances with too many points for a table (e.table = 2): T holds the   *)
(* points seen so far in all the runs on the instance and the points that   *)
(* the event brings, .opt the value of the best that is certainly feasible *)
(* and .hi the least upper bound that a run has claimed.  The optimum lies *)
(* between, so what is claimed must fit; values cannot be less than those  *)
(* of the points seen, and must be attained.                               *)
Seen(I, x) == [o |-> Obj(I, x), v |-> MayViolate(I, x),
               x |-> IF I.cont = 0 THEN x ELSE <<XS>> \o x]
SeenAll(I, xs) == {Seen(I, x) : x \in {w \in xs : IsPoint(I, w)}}
OnInst(e) ==
    LET I == e.i
        p == Tolerated(I)
        same == e.table = 2 /\ ~st.full /\ st.I = I
        T == CASE e.table = 1 -> Table(I)
               [] e.table = 2 -> SeenAll(I, Range(e.pts)) \cup (IF same THEN st.T ELSE {})
               [] OTHER -> {}
    IN [Empty EXCEPT !.I = I, !.g = e.g, !.T = T, !.p = p,
                     !.opt = IF e.table > 0 THEN Opt(T, p) ELSE 0,
                     !.full = e.table # 2,
                     !.hi = IF same THEN st.hi ELSE INF,
                     !.cnt = [s \in 1..I.N |-> 0]]
(* What is known of the optimum. *)
Lo == st.opt
Hi == IF st.full THEN st.opt ELSE st.hi
UpperOK(v) == AtLeast(v, Lo)
LowerOK(v) == AtMost(v, Hi)
IsOptimum(v) == IF st.full THEN Near(v, st.opt)
                ELSE Abs(v) < INF /\ UpperOK(v) /\ LowerOK(v)
(* After an event that shows the points xs and claims the upper bound ub.  *)
Learn(s, xs, ub) ==
    IF s.full THEN s
    ELSE LET known == {q.x : q \in s.T}
             form(x) == IF s.I.cont = 0 THEN x ELSE <<XS>> \o x
             N == SeenAll(s.I, {x \in xs : form(x) \notin known})
         IN [s EXCEPT !.T = @ \cup N, !.opt = Max2(@, Opt(N, s.p)),
                      !.hi = IF ub = NAV THEN @ ELSE Min2(@, ub)]

(* Judging points and sets of scenarios. *)
Must(x) == MustViolate(st.I, x)
May(x) == MayViolate(st.I, x)
CertainlyFeasible(x) == Cardinality(May(x)) <= st.p
PossiblyFeasible(x) == Cardinality(Must(x)) <= st.p
CostOf(S) == Cost(st.T, S)
RelaxOf(part) == Relax(st.T, part, st.p)
ValueIs(v, x) == IF st.full THEN Near(v, x) ELSE Abs(v) < INF /\ AtLeast(v, x)
WellFormed(lp) == IsPartitionLog(lp, st.I.N)
GoodPoint(x) == IsPoint(st.I, x)
SolvesFor(x, S, v) == /\ GoodPoint(x)
                      /\ Must(x) \cap S = {}
                      /\ Near(v, Obj(st.I, x))

(* What a run promises on its return: the optimum, or bounds on it that are *)
(* no further apart than the gap it was given (1/10000 of the lower bound). *)
Exact == st.g.gap <= 1
PerTenK(g, v) == g * (v \div 10000) + (g * (v % 10000)) \div 10000
Bracket(lb, ub) == LowerOK(lb) /\ UpperOK(ub) /\ lb > -INF /\ ub < INF
WithinGap(lb, ub) == /\ lb > -INF /\ ub < INF
                     /\ ub <= lb + PerTenK(st.g.gap, Max2(lb, 0)) + Tol(ub)

---------------------------------------------------------------------------
(* part0: the constructor has built the initial partition.                 *)
SortDown(q) == SortSeq(q, LAMBDA a, b : a > b)
Dealt(lp, costs, w) ==   \* w blocks, costs of the scenarios
    LET all == SortDown(costs) IN
    \A k \in DOMAIN lp :
      LET own == SortDown([j \in DOMAIN lp[k] |-> costs[lp[k][j]]]) IN
      \A j \in DOMAIN own :
        /\ own[j] <= all[Min2((j - 1) * w + 1, Len(all))]
        /\ own[j] >= all[Min2(j * w, Len(all))]
ScenCosts == [s \in 1..st.I.N |-> CostOf({s})]
JPart0(e) ==
    LET wf == WellFormed(e.part) IN
       Cl("C03", "initial", TRUE, wf)
    \o Cl("C21", "cover", TRUE, wf)
    \o Cl("C21", "count", TRUE, Len(e.part) = st.p + 1)
    \o Cl("C21", "balanced", TRUE,
          \A k, h \in DOMAIN e.part : Len(e.part[k]) <= Len(e.part[h]) + 1)
    \o Cl("C21", "scenario_costs", Len(e.scen) > 0,
          Len(e.scen) = st.I.N /\ \A s \in DOMAIN e.scen : ValueIs(e.scen[s], CostOf({s})))
    \o Cl("C21", "dealt", wf /\ st.g.init = "cost" /\ st.full, Dealt(e.part, ScenCosts, st.p + 1))
    \o Cl("C21", "dealt_by_costs", wf /\ st.g.init = "cost" /\ ~st.full /\ Len(e.scen) = st.I.N,
          Dealt(e.part, e.scen, st.p + 1))
    \o Cl("C21", "no_worse_than_quantile", wf /\ st.g.init = "cost" /\ st.full,
          AtMost(RelaxOf(Blocks(e.part)), Quantile(ScenCosts, st.p)))
    \o Cl("C13", "initial_bound", st.g.init = "cost" /\ (st.full \/ Len(e.scen) = st.I.N),
          Near(e.ub, Quantile(IF st.full THEN ScenCosts ELSE e.scen, st.p)))
    \o Cl("C02", "initial", TRUE, UpperOK(e.ub))

RowsOf(s) == [i \in 1..st.I.m |-> Append(st.I.A[s][i], st.I.b[i])]
RECURSIVE RowsOfSeq(_, _)
RowsOfSeq(q, k) == IF k = 0 THEN <<>> ELSE RowsOfSeq(q, k - 1) \o RowsOf(q[k])

(* iter: start of an iteration.                                            *)
JIter(e) ==
    LET wf == WellFormed(e.part)
        bl == Blocks(e.part)
    IN Cl("C03", "iteration", TRUE, wf)
    \o Cl("C03", "count", TRUE, e.nbs = Len(e.part) /\ Len(e.part) >= st.p + 1)
    \o Cl("C03", "view", Has(e, "vrows"),
          /\ Len(e.vrows) = Len(e.part)
          /\ \A k \in DOMAIN e.vrows :
                SameRows(e.vrows[k], RowsOfSeq(e.part[k], Len(e.part[k]))))
    \o Cl("C03", "adopted", Len(st.part) > 0, bl = st.part)
    \o Cl("C06", "aligned", TRUE,
          Len(e.costs) = Len(e.part) /\ Len(e.sols) = Len(e.part))
    \o Cl("C06", "cost", wf,
          \A k \in DOMAIN e.costs : k \in DOMAIN bl => ValueIs(e.costs[k], CostOf(bl[k])))
    \o Cl("C06", "solution", wf,
          \A k \in DOMAIN e.sols : k \in DOMAIN bl =>
              SolvesFor(e.sols[k], bl[k], IF st.full THEN CostOf(bl[k]) ELSE e.costs[k]))
    \o Cl("C02", "upper", TRUE, UpperOK(e.ub))
    \o Cl("C02", "lower", TRUE, LowerOK(e.lb))
    \o Cl("C02", "upper_never_increases", TRUE, NotAbove(e.ub, st.ub))
    \o Cl("C02", "lower_never_decreases", TRUE, AtMost(st.lb, e.lb))
    \o Cl("C02", "lower_attained", e.lb > -INF /\ e.hasx = 1,
          GoodPoint(e.xlb) /\ PossiblyFeasible(e.xlb) /\ Near(e.lb, Obj(st.I, e.xlb)))
    \o Cl("C02", "lower_has_solution", e.lb > -INF, e.hasx = 1)
    \o Cl("C02", "upper_kept", TRUE, NotAbove(e.ub, st.bub))
    \o Cl("C02", "lower_kept", TRUE, AtMost(st.blb, e.lb))
    \* a feasible solution of a block that is not above the upper bound
    \* has been an incumbent when it was found
    \o Cl("C02", "lower_covers_blocks", TRUE,
          \A k \in DOMAIN e.sols :
             LET x == e.sols[k] IN
             GoodPoint(x) /\ CertainlyFeasible(x) =>
                LET o == Obj(st.I, x) IN
                o > e.ub - Tol(o) \/ AtMost(o, e.lb))
    \o Cl("C05", "refuted", wf /\ e.k > 1, NbHit(bl, st.inf) >= st.p + 1)
    \o Cl("C05", "made_when_due", st.due, Len(e.part) <= Len(st.ipart))
    \o Cl("C05", "bound_kept", wf /\ e.k > 1, AtMost(RelaxOf(bl), e.ub))
    \o Cl("C23", "iterations", st.g.merge = 0, e.k <= Max2(st.I.N - st.p, 1))
    \o Cl("C23", "progress", e.k > 1 /\ st.g.merge = 0, Len(e.part) > Len(st.ipart))
    \o Cl("C23", "no_cycle", wf /\ Sel("C23"), Range(bl) \notin st.seen)
UIter(e) == [st EXCEPT !.seen = IF Sel("C23") THEN @ \cup {Range(Blocks(e.part))} ELSE @, !.part = Blocks(e.part), !.ipart = Blocks(e.part), !.due = FALSE,
                       !.ub = e.ub, !.lb = e.lb, !.k = e.k]

(* bigm: big-M parameters, aligned with the rows of each scenario / block. *)
(* e.rows[k][r] = <<a_1, .., a_n, b>>, e.M[k][r]; e.part = <<>> when the   *)
(* problem is not partitioned.                                             *)
BigMPart(e) == IF Len(e.part) > 0 THEN Blocks(e.part) ELSE [s \in 1..st.I.N |-> {s}]
Reach(e) == {q \in st.T : NbHit(BigMPart(e), q.v) <= st.p
                          /\ (e.meth = "belotti" => q.o <= e.ub)}
RowA(r) == SubSeq(r, 1, Len(r) - 1)
RowB(r) == r[Len(r)]
MTol(a) == 3 + Abs(a) \div 100000
(* The largest excess of a row among the points whose value is at most the *)
(* upper bound (rounded up to a tenth for continuous variables).           *)
MostA(I) == SetMax({I.A[s][i][j] : s \in 1..I.N, i \in 1..I.m, j \in 1..I.n})
KnapFits(I, w, cap) == I.n * w + cap <= 2000000000 \div Max2(MostA(I), 1)
TightData(e) == e.ub < INF /\ e.ub >= 0
                /\ (st.I.cont = 1 => KnapFits(st.I, SetMax(Range(st.I.c)), e.ub \div 100 + 1))
Tightest(e, a, b, Q) ==
    IF st.I.cont = 0 THEN SetMax({Excess(st.I, a, b, q.x) : q \in Q})
    ELSE Knap(a, b, st.I.c, e.ub \div 100 + 1)
JBigM(e) ==
    LET R == Reach(e)
        shape == /\ DOMAIN e.M = DOMAIN e.rows
                 /\ DOMAIN e.rows = DOMAIN BigMPart(e)
                 /\ \A k \in DOMAIN e.M : Len(e.M[k]) = Len(e.rows[k])
                                          /\ Len(e.M[k]) = st.I.m * Cardinality(BigMPart(e)[k])
    IN Cl("C08", "shape", TRUE, shape)
    \o Cl("C08", "valid", shape /\ R # {},
          \A k \in DOMAIN e.M : \A r \in DOMAIN e.M[k] :
             LET a == RowA(e.rows[k][r])
                 b == RowB(e.rows[k][r])
             IN \A q \in R : LET v == Excess(st.I, a, b, q.x)
                             IN e.M[k][r] # NAV /\ v <= e.M[k][r] + MTol(v))
    \o Cl("C08", "not_weaker_than_naive", shape,
          \A k \in DOMAIN e.M : \A r \in DOMAIN e.M[k] :
             LET v == 100 * (SumSeq(RowA(e.rows[k][r])) - RowB(e.rows[k][r]))
             IN e.M[k][r] <= Max2(v, 0) + MTol(v))
    \o Cl("C08", "naive", shape /\ e.meth = "naive",
          \A k \in DOMAIN e.M : \A r \in DOMAIN e.M[k] :
             LET v == 100 * (SumSeq(RowA(e.rows[k][r])) - RowB(e.rows[k][r]))
             IN Abs(e.M[k][r] - v) <= MTol(v))
    \o Cl("C08", "no_weaker_than_tightened",
          shape /\ e.meth = "belotti" /\ TightData(e) /\ (st.full \/ st.I.cont = 1),
          LET Q == {q \in st.T : NotAbove(q.o, e.ub)} IN
          \A k \in DOMAIN e.M : \A r \in DOMAIN e.M[k] :
             LET v == Tightest(e, RowA(e.rows[k][r]), RowB(e.rows[k][r]), Q)
             IN e.M[k][r] <= v + MTol(v))
    \o Cl("C08", "no_weaker_than_quantile", shape /\ e.meth = "song" /\ KnapFits(st.I, MostA(st.I), SetMax(Range(st.I.b))),
          LET P == BigMPart(e)
              nr == Min2(st.p + 2, Len(P))
              \* a sample of the blocks: costly
              W == {1 + ((st.I.b[1] \div 10) % Len(e.M))}
          IN \A k \in W : \A r \in DOMAIN e.M[k] :
                LET a == RowA(e.rows[k][r])
                    b == RowB(e.rows[k][r])
                    of(h) == IF h = k THEN 0 ELSE
                        SetMin({Knap(a, b, st.I.A[t][i], st.I.b[i]) : t \in P[h], i \in 1..st.I.m})
                    v == Smallest([h \in DOMAIN P |-> of(h)], nr)
                IN e.M[k][r] <= v + MTol(v))

(* hint: warm-start values for the blocks of the partition now in force.   *)
Selected == {k \in DOMAIN st.z : st.z[k] = 1}
JHint(e) ==
    LET H == Range(e.hints) IN
       Cl("C22", "positions", TRUE, H \subseteq DOMAIN st.part)
    \o Cl("C22", "only_selected", Len(st.z) = Len(st.zpart) /\ H \subseteq DOMAIN st.part,
          \A h \in H : \E k \in Selected : st.zpart[k] \subseteq st.part[h])
    \o Cl("C22", "all_surviving", Len(st.z) = Len(st.zpart),
          \A h \in DOMAIN st.part :
             (\E k \in Selected : st.zpart[k] = st.part[h]) => h \in H)
    \o Cl("C22", "only_ones", TRUE, e.ones = 1)

(* ub: solution of the relaxed (partitioned) problem.                      *)
JUb(e) ==
    LET v == RelaxOf(st.part)
        loose == Has(e, "loose") /\ e.loose = 1   \* solved to a gap only
    IN Cl("C07", "point", TRUE, GoodPoint(e.x))
    \o Cl("C07", "value", ~loose, ValueIs(e.obj, v))
    \o Cl("C07", "bound", ~loose, Near(e.bnd, IF st.full THEN v ELSE e.obj))
    \o Cl("C07", "bracket", loose, (st.full => AtMost(e.obj, v)) /\ AtLeast(e.bnd, v))
    \o Cl("C07", "within_gap", loose, WithinGap(e.obj, e.bnd))
    \o Cl("C07", "objective", GoodPoint(e.x), Near(e.obj, Obj(st.I, e.x)))
    \o Cl("C07", "feasible", GoodPoint(e.x), NbHit(st.part, Must(e.x)) <= st.p)
    \o Cl("C07", "indicators", Len(e.z) > 0 /\ GoodPoint(e.x),
          /\ Len(e.z) = Len(st.part)
          /\ \A k \in DOMAIN e.z : e.z[k] \in {0, 1}
          /\ \A k \in DOMAIN e.z : e.z[k] = 1 => st.part[k] \cap Must(e.x) = {}
          /\ (e.mode = "model" => Cardinality({k \in DOMAIN e.z : e.z[k] = 0}) <= st.p))
    \o Cl("C02", "relaxed_bound", TRUE, UpperOK(e.bnd))
UUb(e) == [st EXCEPT !.x = e.x, !.z = e.z, !.zpart = st.part, !.bub = Min2(@, e.bnd)]

(* feas: feasibility verdict on a point.                                   *)
JFeas(e) ==
    LET L == Range(e.inf) IN
       Cl("C10", "verdict", TRUE,
          IF e.ok = 1 THEN PossiblyFeasible(e.x) ELSE ~CertainlyFeasible(e.x))
    \o Cl("C10", "violated", TRUE,
          /\ Must(e.x) \subseteq L /\ L \subseteq May(e.x)
          /\ Cardinality(L) = Len(e.inf))
    \o Cl("C10", "satisfied", Has(e, "sat"), Range(e.sat) = (1..st.I.N) \ L)
    \o Cl("C10", "count", e.nbi >= 0, e.nbi = Cardinality(L))
UFeas(e) == [st EXCEPT !.inf = Range(e.inf), !.x = e.x]

(* save: the projection's history of satisfied scenarios.                  *)
InRun == Has(st.g, "drv") /\ st.g.drv = "adaptive"
USave(e) == IF InRun THEN st ELSE [st EXCEPT !.cnt = [s \in DOMAIN st.cnt |->
                                  st.cnt[s] + IF s \in Range(e.sat) THEN 1 ELSE 0]]
(* In a run, the relaxed solution of each iteration counts. *)
CntWith(x) == IF ~InRun \/ ~GoodPoint(x) THEN st.cnt
              ELSE [s \in DOMAIN st.cnt |-> st.cnt[s] + IF s \in Must(x) THEN 0 ELSE 1]
SureWith(x) == st.sure /\ (InRun => GoodPoint(x) /\ Must(x) = May(x))
ULb(e) == [st EXCEPT !.blb = Max2(@, e.v), !.cnt = CntWith(e.x), !.sure = SureWith(e.x)]

(* lb: the projection.                                                     *)
JLb(e) ==
    LET S == Range(e.S)
        U == (1..st.I.N) \ S
        c == CostOf(S)
        known == Len(e.S) > 0
    IN Cl("C11", "kept_count", known, Len(e.S) = st.I.N - st.p /\ Cardinality(S) = Len(e.S))
    \o Cl("C11", "keeps_satisfied", known /\ st.g.proj = "rescaled_max_violation",
          (U \ SlackViolate(st.I, e.x, FALSE)) # {}
             => S \cap SlackViolate(st.I, e.x, TRUE) = {})
    \o Cl("C11", "least_violated",
          known /\ st.g.proj = "rescaled_max_violation" /\ WholeData(st.I) /\ st.I.cont = 0,
          LeastViolated(st.I, e.x, S))
    \o Cl("C11", "most_often_satisfied",
          known /\ st.g.proj = "counter" /\ SureWith(e.x),
          LET cnt == CntWith(e.x) IN \A s \in S, u \in U : cnt[u] <= cnt[s])
    \o Cl("C11", "value", known /\ c > e.lb + Tol(c), ValueIs(e.v, c))
    \o Cl("C11", "no_improvement", known /\ c <= e.lb + Tol(c) /\ st.full, AtMost(e.v, e.lb))
    \o Cl("C11", "solution", known /\ e.hasx = 1, SolvesFor(e.xl, S, e.v))
    \o Cl("C11", "has_solution", known /\ c > e.lb + Tol(c), e.hasx = 1)
    \o Cl("C11", "lower_bound", TRUE, LowerOK(e.v))
    \o Cl("C11", "feasible", e.hasx = 1, GoodPoint(e.xl) /\ PossiblyFeasible(e.xl))

(* inc: incumbent search among candidate points.                           *)
(* Objectives within 5 of a bound may go either way, unless e.exact = 1.   *)
JInc(e) ==
    LET ix == DOMAIN e.cands
        ob == [k \in ix |-> Obj(st.I, e.cands[k])]
        gl == IF e.exact = 1 THEN 0 ELSE 5
        must == {k \in ix : CertainlyFeasible(e.cands[k]) /\ ob[k] > e.lb + gl
                            /\ ob[k] <= e.ub - gl}
        may == {k \in ix : PossiblyFeasible(e.cands[k]) /\ ob[k] > e.lb - gl
                           /\ (e.exact = 1 => ob[k] > e.lb)
                           /\ ob[k] <= e.ub + gl}
    IN Cl("C12", "found", must # {}, e.found = 1)
    \o Cl("C12", "not_found", may = {}, e.found = 0)
    \o Cl("C12", "candidate", e.found = 1,
          \E k \in may : e.cands[k] = e.x /\ Near(e.obj, ob[k]))
    \o Cl("C12", "best", e.found = 1, \A k \in must : e.obj >= ob[k] - Tol(ob[k]))

(* The optimal cost of a split is that of the continuous problem.          *)
CostSplits == st.g.split = "cost" /\ st.I.cont = 1 /\ st.I.N <= 7 /\ st.full
PartsOf(bl, S) == {bl[k] : k \in {k \in DOMAIN bl : bl[k] \subseteq S}}

(* split: a refinement.                                                    *)
JSplit(e) ==
    LET old == Blocks(e.old)
        new == Blocks(e.new)
        wf == WellFormed(e.old) /\ WellFormed(e.new)
        V == st.inf
    IN Cl("C03", "refined", TRUE, WellFormed(e.new))
    \o Cl("C04", "partition", TRUE, wf)
    \o Cl("C04", "refines", wf, Refines(new, old))
    \o Cl("C04", "splits", wf, Len(new) = Len(old) + Splits(old, V, st.p))
    \o Cl("C04", "refuted", wf, NbHit(new, V) = st.p + 1)
    \o Cl("C04", "feasible_reported", wf /\ Has(e, "feas"),
          Range(e.feas) = DOMAIN new \ HitBlocks(new, V))
    \o Cl("C04", "changed_reported", wf /\ Has(e, "newidx"),
          Range(e.newidx) = {k \in DOMAIN new : k > Len(old) \/ new[k] # old[k]})
    \o Cl("C04", "relaxes", wf /\ st.T # {}, RelaxOf(new) <= RelaxOf(old))
    \o Cl("C18", "halves_violated", wf /\ CostSplits,
          \A k \in DOMAIN old : LET P == PartsOf(new, old[k]) IN
             Cardinality(P) > 1 => \A S \in P : S \cap V # {})
    \o Cl("C18", "splits_minimax", wf /\ CostSplits,
          \A k \in DOMAIN old : BestSplitsOf(st.T, old[k], V, PartsOf(new, old[k])))
    \o Cl("C18", "blocks_chosen",
          wf /\ CostSplits /\ e.ub # NAV /\ Len(new) - Len(old) \in 1..4,
          Range(new) \in SplitReach(st.T, V, e.ub, Len(new) - Len(old), Range(old)))
(* Blocks changed by a refinement that all cost less than the upper bound,  *)
(* which has improved since the last merge, call for a merge.               *)
MergeDue(e) ==
    LET old == Blocks(e.old)
        new == Blocks(e.new)
        below(S) == CostOf(S) < e.ub - Tol(CostOf(S))
    IN /\ InRun /\ st.full /\ st.g.merge = 1 /\ st.k > 0
       /\ WellFormed(e.old) /\ WellFormed(e.new)
       /\ e.ub # NAV /\ e.ub < st.mub - Tol(e.ub)
       /\ \A S \in Range(new) \ Range(old) : below(S)
USplit(e) == [st EXCEPT !.part = Blocks(e.new), !.mu = Len(e.new) - Len(e.old),
                        !.due = MergeDue(e)]

(* merge: after a refinement.                                              *)
JMerge(e) ==
    LET old == Blocks(e.old)
        new == Blocks(e.new)
        wf == WellFormed(e.old) /\ WellFormed(e.new)
        \* the blocks that were joined
        G == {k \in DOMAIN old : \A q \in DOMAIN new : new[q] # old[k]}
        F == {k \in DOMAIN old : old[k] \cap st.inf = {}}
        B == DOMAIN old \ F
    IN Cl("C05", "joins_one_group", wf,
          \E q \in DOMAIN new : new[q] = UNION {old[k] : k \in G})
    \o Cl("C05", "how_many", wf /\ G \subseteq F /\ st.mu > 0, Cardinality(G) = st.mu + 1)
    \o Cl("C05", "most_slack", wf /\ G \subseteq F /\ SlackData(st.I) /\ GoodPoint(st.x)
                              /\ st.I.cont = 0,
          \A k \in G, q \in F \ G : MoreSlack(st.I, st.x, old[k], old[q]))
    \o Cl("C05", "all_satisfied", wf /\ ~(G \subseteq F),
          F \subseteq G /\ Cardinality(G \cap B) = 1)
    \o Cl("C05", "costliest_violated", wf /\ ~(G \subseteq F) /\ InRun /\ st.full,
          \A k \in G \cap B, q \in B : AtLeast(CostOf(old[k]), CostOf(old[q])))
    \o Cl("C03", "merged", TRUE, WellFormed(e.new))
    \o Cl("C05", "partition", TRUE, wf)
    \o Cl("C05", "coarsens", wf, Coarsens(new, old))
    \o Cl("C05", "smaller", wf, Len(new) < Len(old))
    \o Cl("C05", "still_refuted", wf, NbHit(new, st.inf) >= st.p + 1)
    \o Cl("C05", "no_larger_than_before", wf /\ Len(st.ipart) > 0, Len(new) <= Len(st.ipart))
    \o Cl("C05", "bound_not_worse", wf /\ st.T # {} /\ e.ub < INF, AtMost(RelaxOf(new), e.ub))

(* pairs: the blocks e.a[i] and e.b[i] joined, for every i; e.got are the    *)
(* candidates that cost at most e.ub, the costliest first.                   *)
JPairs(e) ==
    LET old == Blocks(e.old)
        new == Blocks(e.new)
        used == Range(e.a) \cup Range(e.b)
    IN Cl("C05", "paired", TRUE,
          /\ WellFormed(e.new) /\ Len(new) = Len(old) - Len(e.a) /\ e.n = Len(new)
          /\ Range(new) = {old[k] : k \in DOMAIN old \ used}
                          \cup {old[e.a[i]] \cup old[e.b[i]] : i \in DOMAIN e.a})
    \o Cl("C05", "partners", Has(e, "got"),
          /\ Range(e.got) = {k \in Range(e.cand) : e.costs[k] <= e.ub}
          /\ Len(e.got) = Cardinality(Range(e.got))
          /\ \A i \in 2..Len(e.got) : e.costs[e.got[i - 1]] >= e.costs[e.got[i]])
UMerge(e) == [st EXCEPT !.part = Blocks(e.new), !.mub = e.ub]

(* end: the run has returned (or was cut: e.stop = 1).                     *)
JEnd(e) ==
    LET ok == e.stop = 0 IN
       Cl("C01", "upper_is_optimum", ok /\ Exact, IsOptimum(e.ub))
    \o Cl("C01", "lower_is_optimum", ok /\ Exact, IsOptimum(e.lb))
    \o Cl("C01", "bracket", ok, Bracket(e.lb, e.ub))
    \o Cl("C01", "within_gap", ok, WithinGap(e.lb, e.ub))
    \o Cl("C01", "solution", ok,
          e.hasl = 1 /\ GoodPoint(e.xlb) /\ PossiblyFeasible(e.xlb)
          /\ Near(Obj(st.I, e.xlb), e.lb))
    \o Cl("C02", "final_upper", TRUE, UpperOK(e.ub) /\ NotAbove(e.ub, st.ub))
    \o Cl("C02", "final_lower", TRUE, LowerOK(e.lb) /\ AtMost(st.lb, e.lb))
    \o Cl("C02", "final_kept", e.stop = 0, NotAbove(e.ub, st.bub) /\ AtMost(st.blb, e.lb))
    \o Cl("C02", "final_attained", e.lb > -INF /\ e.hasl = 1 /\ e.stop = 0,
          GoodPoint(e.xlb) /\ PossiblyFeasible(e.xlb) /\ Near(e.lb, Obj(st.I, e.xlb)))
    \o Cl("C23", "ends", TRUE, e.cap = 0)
    \o Cl("C23", "final_iterations", st.g.merge = 0 /\ e.iters >= 0,
          e.iters <= Max2(st.I.N - st.p, 1))

(* milp: the extended formulation.                                         *)
JMilp(e) ==
       Cl("C09", "value", Exact, IsOptimum(e.lb))
    \o Cl("C09", "bound", Exact, IsOptimum(e.ub))
    \o Cl("C09", "bracket", TRUE, Bracket(e.lb, e.ub))
    \o Cl("C09", "within_gap", TRUE, WithinGap(e.lb, e.ub))
    \o Cl("C09", "solution", TRUE,
          GoodPoint(e.x) /\ PossiblyFeasible(e.x) /\ Near(Obj(st.I, e.x), e.lb))
    \o Cl("C09", "indicators", GoodPoint(e.x),
          /\ Len(e.z) = st.I.N
          /\ \A s \in DOMAIN e.z : e.z[s] \in {0, 1}
          /\ \A s \in DOMAIN e.z : e.z[s] = 1 => s \notin Must(e.x)
          /\ Cardinality({s \in DOMAIN e.z : e.z[s] = 0}) <= st.p)

---------------------------------------------------------------------------
(* Component operations.                                                   *)

\* quant: quantile bound from costs e.costs, weights e.w, risk e.en/e.ed
JQuant(e) ==
       Cl("C13", "quantile", TRUE, Near(e.bound, WQuantile(e.costs, e.w, e.en, e.ed)))
    \o Cl("C13", "valid", e.true = 1, UpperOK(e.bound))

\* load: the partitioned view of the instance
JLoad(e) ==
    LET K == Len(e.part) IN
       Cl("C14", "subsets", TRUE, e.nb = K /\ Len(e.rows) = K /\ Len(e.proba) = K /\ Len(e.nbc) = K)
    \o Cl("C14", "rows", Len(e.rows) = K,
          \A k \in 1..K : SameRows(e.rows[k], RowsOfSeq(e.part[k], Len(e.part[k]))))
    \o Cl("C14", "row_count", Len(e.nbc) = K,
          \A k \in 1..K : e.nbc[k] = st.I.m * Len(e.part[k]))
    \o Cl("C14", "probability_one", TRUE, Abs(SumSeq(e.proba) - 1000000000) <= 10 * K)
    \o Cl("C14", "uniform", Len(e.proba) = K,
          \A k \in 1..K : Abs(e.proba[k] - 1000000000 \div K) <= 20)
    \o Cl("C14", "tolerated", Len(e.proba) = K,
          \A k \in 1..K : st.p * e.proba[k] <= e.eps + 100 /\ (st.p + 1) * e.proba[k] > e.eps + 100)
    \o Cl("C14", "source_kept", TRUE,
          e.srcnb = st.I.N /\ SameRows(e.srcrows, RowsOfSeq([s \in 1..st.I.N |-> s], st.I.N)))

\* viol: pairwise violation table, e.V[s][t][i]
VTol(a) == 3 + Abs(a) \div 100000
JViol(e) ==
    LET I == st.I
        S == 1..I.N
        R == 1..I.m
    IN Cl("C15", "shape", TRUE,
          /\ DOMAIN e.V = S
          /\ \A s \in S : DOMAIN e.V[s] = S /\ \A t \in S : DOMAIN e.V[s][t] = R)
    \o Cl("C15", "pairs", TRUE,
          \A s \in S, t \in S, i \in R : s # t =>
             LET x == PairExcess(I, s, t, i, R) IN Abs(e.V[s][t][i] - x) <= VTol(x))
    \o Cl("C15", "own", TRUE,
          \A s \in S, i \in R :
             LET lo == PairExcess(I, s, s, i, R)
                 hi == IF I.m = 1 THEN 0 ELSE Min2(0, PairExcess(I, s, s, i, R \ {i}))
             IN e.V[s][s][i] >= lo - VTol(lo) /\ e.V[s][s][i] <= hi + VTol(hi))

\* accsplit: cost-based split of a block (e.S) of which e.inf is violated
JAccSplit(e) ==
    LET S == Range(e.S)
        L == Range(e.left)
        R == Range(e.right)
        V == Range(e.inf)
        ok == L \cup R = S /\ L \cap R = {} /\ Len(e.left) + Len(e.right) = Cardinality(S)
        b == BestSplit(st.T, S, V)
    IN Cl("C18", "partition", TRUE, ok)
    \o Cl("C18", "both_violated", TRUE, L \cap V # {} /\ R \cap V # {})
    \o Cl("C18", "reported_cost", ok, Near(e.cost, SplitCost(st.T, L, R)))
    \o Cl("C18", "minimax", TRUE, Near(e.cost, b))

(* csplit: the same for a block without a table.  What other splits cost   *)
(* at most, and what the halves cost at most, is proved by multipliers of   *)
(* their rows, what the halves cost at least by points that satisfy them.   *)
Proves(S, y) == /\ Len(y) = Len(S)
                /\ \A k \in DOMAIN y : Len(y[k]) = st.I.m /\ \A i \in 1..st.I.m : y[k][i] >= 0
JCSplit(e) ==
    LET L == Range(e.left)
        R == Range(e.right)
        S == Range(e.S)
        V == Range(e.inf)
        ok == L \cup R = S /\ L \cap R = {} /\ Len(e.left) + Len(e.right) = Cardinality(S)
        valid(a) == /\ Range(a.L) \cup Range(a.R) = S /\ Range(a.L) \cap Range(a.R) = {}
                    /\ Range(a.L) \cap V # {} /\ Range(a.R) \cap V # {}
                    /\ Proves(a.L, a.yl) /\ Proves(a.R, a.yr)
        inside(x, Q) == GoodPoint(x) /\ Must(x) \cap Q = {}
    IN Cl("C18", "partition", TRUE, ok)
    \o Cl("C18", "both_violated", TRUE, L \cap V # {} /\ R \cap V # {})
    \o Cl("C18", "cost_attained", ok /\ e.own = 1 /\ Proves(e.left, e.yl) /\ Proves(e.right, e.yr),
          AtMost(e.cost, Max2(DualBound(st.I, e.left, e.yl), DualBound(st.I, e.right, e.yr))))
    \o Cl("C18", "cost_reached", ok /\ e.own = 1 /\ inside(e.xl, L) /\ inside(e.xr, R),
          AtLeast(e.cost, Max2(Obj(st.I, e.xl), Obj(st.I, e.xr))))
    \o Cl("C18", "no_better_split", TRUE,
          \A k \in DOMAIN e.alts : valid(e.alts[k]) =>
             AtMost(e.cost, Max2(DualBound(st.I, e.alts[k].L, e.alts[k].yl),
                                 DualBound(st.I, e.alts[k].R, e.alts[k].yr))))

\* warm: warm-start of indicators (unit call)
JWarm(e) ==
       Cl("C22", "mapping", TRUE,
          Range(e.hints) = {NewPosition(k, Range(e.del)) :
                              k \in {k \in DOMAIN e.z : e.z[k] = 1 /\ k \notin Range(e.del)}})
    \o Cl("C22", "only_ones", TRUE, e.ones = 1)

\* read: an instance file (data in 1/10000) as the program sees it (tenths)
JRead(e) ==
    LET r == e.raw
        g == e.got
    IN Cl("C19", "dimensions", TRUE, g.n = r.n /\ g.m = r.m /\ g.N = r.N)
    \o Cl("C19", "objective", TRUE, g.c = [j \in 1..r.n |-> Round1(r.c[j])])
    \o Cl("C19", "capacities", TRUE,
          Len(g.b) = r.N /\ \A s \in 1..r.N : g.b[s] = [i \in 1..r.m |-> Round1(r.b[i])])
    \o Cl("C19", "matrices", TRUE,
          g.A = [s \in 1..r.N |-> [i \in 1..r.m |-> [j \in 1..r.n |-> Round1(r.A[s][i][j])]]])
    \o Cl("C19", "one_decimal", TRUE, g.tenths = 1)
    \o Cl("C19", "probabilities", TRUE,
          Len(g.proba) = r.N /\ \A s \in 1..r.N : Abs(g.proba[s] - 1000000000 \div r.N) <= 2)
    \o Cl("C19", "risk", TRUE, Abs(g.eps - MulDiv(1000000000, r.en, r.ed)) <= 2)
    \o Cl("C19", "variables", TRUE,
          Len(g.type) = r.n /\ \A j \in 1..r.n : g.type[j] = r.cont)
    \o Cl("C19", "unit_box", r.cont = 1,
          g.lb = [j \in 1..r.n |-> 0] /\ g.ub = [j \in 1..r.n |-> 1])
    \o Cl("C19", "rows_per_scenario", TRUE,
          Len(g.nbc) = r.N /\ \A s \in 1..r.N : g.nbc[s] = r.m)
    \o Cl("C19", "name", TRUE, g.name = r.name)

\* gen: one file written by the instance generator from a deterministic one
\* (e.A[s][i][j] and e.srcA[i][j] in 1/10000).  Data scatter around the source
\* with a deviation of a tenth; in a scenario an item may fail altogether.
JGen(e) ==
    LET ok == /\ e.found = 1 /\ e.N = e.srcN /\ e.m = e.srcm /\ e.n = e.srcn
              /\ Len(e.A) = e.N
              /\ \A s \in 1..e.N : Len(e.A[s]) = e.m
                    /\ \A i \in 1..e.m : Len(e.A[s][i]) = e.n
        S == 1..e.N
    IN Cl("C19", "gen_file", TRUE, e.found = 1)
    \o Cl("C19", "gen_dimensions", e.found = 1, ok)
    \o Cl("C19", "gen_rows", e.found = 1, e.lines = 3 + e.srcN * e.srcm)
    \o Cl("C19", "gen_fixed_data", e.found = 1, e.c = e.srcc /\ e.b = e.srcb)
    \o Cl("C19", "gen_scatter", ok,
          \A s \in S, i \in 1..e.m, j \in 1..e.n :
             LET v == e.A[s][i][j]
                 w == e.srcA[i][j]
             IN v = 0 \/ (v >= w \div 5 /\ v <= 2 * w))
    \o Cl("C19", "gen_failures", ok,
          \A s \in S, j \in 1..e.n : \A i, k \in 1..e.m :
             (e.srcA[i][j] > 0 /\ e.srcA[k][j] > 0) => (e.A[s][i][j] = 0 <=> e.A[s][k][j] = 0))
    \o Cl("C19", "gen_varies", ok /\ e.N >= 5,
          \A i \in 1..e.m, j \in 1..e.n :
             LET W == {e.A[s][i][j] : s \in S} IN
             e.srcA[i][j] >= 100000 => Cardinality(W) > 1 \/ W = {0})
    \o Cl("C19", "gen_loads", e.found = 1, e.loads = 1)
    \o Cl("C27", "generated", TRUE,
          ok /\ e.lines = 3 + e.srcN * e.srcm /\ e.c = e.srcc /\ e.b = e.srcb /\ e.loads = 1)

(* stop: the run was stopped, by its time limit or by an interruption, at   *)
(* any point; e.late: iterations begun after the limit had passed.          *)
JStop(e) ==
       Cl("C16", "upper", e.mode # "alarm" \/ e.wrote = 1, UpperOK(e.ub))
    \o Cl("C16", "lower", e.mode # "alarm" \/ e.wrote = 1, LowerOK(e.lb))
    \o Cl("C16", "feasible", e.hasl = 1,
          GoodPoint(e.xlb) /\ PossiblyFeasible(e.xlb) /\ LowerOK(Obj(st.I, e.xlb)))
    \o Cl("C16", "attained", e.mode = "limit" /\ e.lb > -INF,
          e.hasl = 1 /\ GoodPoint(e.xlb) /\ Near(e.lb, Obj(st.I, e.xlb)))
    \o Cl("C16", "partition", e.mode = "limit" /\ Len(e.part) > 0, WellFormed(e.part))
    \o Cl("C16", "stops", e.mode = "limit", e.late = 0)
    \o Cl("C16", "exit_code", e.mode = "alarm", e.rc = 0)
    \o Cl("C16", "report_written", TRUE, e.wrote = 1)
    \o Cl("C16", "report_bounds", e.wrote = 1,
          Abs(e.rlb - e.lb) <= 1 /\ Abs(e.rub - e.ub) <= 1)

(* row: the line of results that a run has written, against what the run    *)
(* was (st.I, e.set) and found (e.res).  Numbers in thousandths.            *)
Codes == [counter |-> 1, random |-> 2, cost |-> 3, rescaled_max_violation |-> 5]
BigMCodes == [naive |-> 1, belotti |-> 2, song |-> 3]
GapOK(gap, lb, ub) ==
    IF gap = NAV THEN FALSE ELSE IF lb <= -INF \/ ub >= INF THEN gap >= INF
    ELSE IF lb < 100 THEN TRUE
    ELSE LET g == MulDiv(100000, ub - lb, lb)
         IN Abs(gap - g) <= 3 + (200000 \div lb) + Abs(g) \div 1000
(* The iteration log: <<iteration, time, lb, ub, gap, size>> per line.      *)
LogOrder(w) == \A k \in 1..(Len(w) - 1) : /\ w[k + 1][1] \in {w[k][1], w[k][1] + 1}
                                          /\ w[k + 1][2] >= w[k][2]
LogBounds(w) == \A k \in DOMAIN w : LowerOK(w[k][3]) /\ UpperOK(w[k][4])
LogTightens(w) ==
    \A k \in 1..(Len(w) - 1) : AtMost(w[k][3], w[k + 1][3]) /\ NotAbove(w[k + 1][4], w[k][4])
LogGap(w) == \A k \in DOMAIN w : GapOK(w[k][5], w[k][3], w[k][4])
LogSizes(w) ==
    /\ \A k \in DOMAIN w : w[k][6] >= st.p + 1 /\ w[k][6] <= st.I.N
    /\ \A k \in 1..(Len(w) - 1) : w[k + 1][1] = w[k][1] => w[k + 1][6] = w[k][6]
(* ... against the iterations observed: <<size, lb, ub>> at the start of each. *)
LogObserved(w, its) ==
    \A k \in DOMAIN w : w[k][1] \in DOMAIN its =>
        LET it == its[w[k][1]] IN
        /\ w[k][6] = it[1]
        /\ AtMost(it[2], w[k][3]) /\ NotAbove(w[k][4], it[3])
        /\ w[k][1] + 1 \in DOMAIN its =>
              LET nx == its[w[k][1] + 1] IN AtMost(w[k][3], nx[2]) /\ NotAbove(nx[3], w[k][4])
JRow(e) ==
    LET r == e.row
        s == e.set
        v == e.res
        ad == s.method = "adaptive"
    IN Cl("C17", "width", TRUE, e.width = IF ad THEN 18 ELSE 15)
    \o Cl("C17", "instance", TRUE,
          /\ r.name = s.name /\ r.n = st.I.n /\ r.m = st.I.m /\ r.N = st.I.N
          /\ r.type = st.I.cont)
    \o Cl("C17", "risk", TRUE, Abs(r.eps - MulDiv(1000, st.I.en, st.I.ed)) <= 1)
    \o Cl("C17", "limits", TRUE, r.limit = s.limit /\ r.tol = s.tol)
    \o Cl("C17", "big_m_used", TRUE, r.bigm = s.bigm)
    \o Cl("C17", "methods", ad,
          r.codes = <<Codes[s.split], Codes[s.init], Codes[s.proj]>>)
    \o Cl("C17", "big_m_method", ~ad /\ s.bigm = 1, r.codes = <<BigMCodes[s.meth]>>)
    \o Cl("C17", "big_m_time", ~ad, 0 <= r.bmtime /\ r.bmtime <= r.time + 2)
    \o Cl("C17", "iterations", ad, r.iter = v.iter /\ r.size = v.size)
    \o Cl("C17", "bounds", TRUE, Abs(r.lb - v.lb) <= 1 /\ Abs(r.ub - v.ub) <= 1)
    \o Cl("C17", "gap", TRUE, GapOK(r.gap, v.lb, v.ub))
    \o Cl("C17", "time", TRUE, 0 <= r.time /\ r.time <= v.wall + 50)
    \o Cl("C17", "log_begins", ad /\ s.full = 1, Len(e.log) > 0 /\ e.log[1][1] = 1)
    \o Cl("C17", "log_order", ad, LogOrder(e.log))
    \o Cl("C17", "log_times", ad,
          \A k \in DOMAIN e.log : 0 <= e.log[k][2] /\ e.log[k][2] <= v.wall + 50)
    \o Cl("C17", "log_bounds", ad, LogBounds(e.log))
    \o Cl("C17", "log_tightens", ad, LogTightens(e.log))
    \o Cl("C17", "log_gap", ad, LogGap(e.log))
    \o Cl("C17", "log_sizes", ad, LogSizes(e.log))
    \o Cl("C17", "log_observed", ad /\ Len(e.iters) > 0, LogObserved(e.log, e.iters))
    \o Cl("C17", "log_every_iteration", ad /\ s.full = 1 /\ Len(e.iters) > 0,
          {e.log[k][1] : k \in DOMAIN e.log} = DOMAIN e.iters)
    \o Cl("C17", "iterations_made", ad /\ Len(e.iters) > 0, r.iter = Len(e.iters))
    \o Cl("C17", "log_last", ad /\ Len(e.log) > 0,
          e.log[Len(e.log)][1] <= v.iter /\ NotAbove(v.ub, e.log[Len(e.log)][4])
          /\ AtMost(e.log[Len(e.log)][3], v.lb))

(* bounds: the bounds over time saved by the extended formulation: rows of   *)
(* <<time, objective of the best solution, bound>>.                         *)
BoundsValid(rows) == \A k \in DOMAIN rows : LowerOK(rows[k][2])
                                             /\ UpperOK(rows[k][3])
BoundsTighten(rows) ==
    \A k \in 1..(Len(rows) - 1) : /\ rows[k + 1][1] >= rows[k][1]
                                  /\ AtMost(rows[k][2], rows[k + 1][2])
                                  /\ NotAbove(rows[k + 1][3], rows[k][3])
(* Without repetitions: what the solver reported, and what was saved. *)
RECURSIVE Changes(_)
Changes(w) == IF Len(w) <= 1 THEN w
              ELSE IF w[1] = w[2] THEN Changes(Tail(w)) ELSE <<w[1]>> \o Changes(Tail(w))
JBounds(e) ==
       Cl("C17", "saved_valid", TRUE, BoundsValid(e.rows))
    \o Cl("C17", "saved_tighten", TRUE, BoundsTighten(e.rows))
    \o Cl("C17", "saved_last", Len(e.rows) > 0,
          LET w == e.rows[Len(e.rows)]
          IN AtMost(w[2], e.lb) /\ NotAbove(e.ub, w[3]))
    \o Cl("C17", "saved_complete", Has(e, "seen"),
          Changes([k \in DOMAIN e.rows |-> Tail(e.rows[k])]) = e.seen)
    \o Cl("C17", "saved_once", Has(e, "text"),
          \A k \in 2..Len(e.text) : e.text[k] # e.text[k - 1])
    \o Cl("C17", "saved_times", TRUE,
          \A k \in DOMAIN e.rows : 0 <= e.rows[k][1] /\ e.rows[k][1] <= e.wall + 50)

(* det: a deterministic model enforcing exactly the scenarios e.S.           *)
JDet(e) ==
    LET S == Range(e.S)
        c == CostOf(S)
    IN Cl("C25", "value", TRUE, ValueIs(e.v, c))
    \o Cl("C25", "solution", Len(e.x) > 0, SolvesFor(e.x, S, IF st.full THEN c ELSE e.v))

(* twin: the same step of two runs with the same data, options and seed.     *)
JTwin(e) == Cl("C26", e.kind, TRUE, e.a = e.b)

(* fmt: a cell of the summary tables, from the rows of several runs.        *)
(* e.rows = <<time, gap, iterations>> in thousandths; e.req required gap.   *)
JFmt(e) ==
    LET c == Cell(e.rows, e.req, e.part = 1) IN
       Cl("C24", "solved", TRUE, e.nsolved = c.solved)
    \o Cl("C24", "kind", TRUE, e.all = c.all /\ (c.all = 0 => e.shown = c.solved))
    \o Cl("C24", "value", TRUE, Abs(e.value - c.value) <= 1)
    \o Cl("C24", "time_or_gap", TRUE,
          IF c.all = 1 THEN e.gap >= INF /\ Abs(e.time \div 10 - c.value) <= 1
                       ELSE e.time >= INF /\ Abs(e.gap \div 10 - c.value) <= 1)
    \o Cl("C24", "iterations", e.part = 1, Abs(e.iters - c.iters) <= 1)
(* find: the result file of a run is found again by the export.             *)
JFind(e) == Cl("C24", "found", TRUE, e.found = 1)
         \o Cl("C24", "values", e.found = 1, e.got = e.want)
(* xrow: one row of an exported table.  e.methods[m] = rows of the method    *)
(* or <<>> if a result is missing; e.cells[m] as in fmt, miss = 1 for "-".  *)
JXRow(e) ==
       Cl("C24", "row_present", TRUE, e.ok = 1)
    \o Cl("C24", "row_cells", e.ok = 1,
          \A m \in DOMAIN e.methods :
             IF m \in Present(e.methods)
             THEN LET c == Cell(e.methods[m], e.req, m > 2)
                      d == e.cells[m]
                  IN /\ d.miss = 0 /\ d.all = c.all /\ Abs(d.value - c.value) <= 1
                     /\ (c.all = 0 => d.shown = c.solved)
                     /\ (m > 2 => Abs(d.iters - c.iters) <= 1)
             ELSE e.cells[m].miss = 1)
    \o Cl("C24", "row_best", e.ok = 1, Cardinality(Range(e.bold)) = 1 /\ Range(e.bold) \subseteq BestMethods(e.methods, e.req, 1))

(* xbig: one row of the table of big-M times: Song, Belotti (continuous,    *)
(* binary); e.groups = the times in thousandths, <<>> if one is missing.    *)
JXBig(e) ==
    Cl("C24", "big_m_times", TRUE,
       /\ e.ok = 1
       /\ \A k \in 1..3 :
            IF Len(e.groups[k]) = 0 THEN e.cells[k].miss = 1
            ELSE /\ e.cells[k].miss = 0 /\ e.cells[k].all = 1
                 /\ Abs(e.cells[k].value - SumSeq(e.groups[k]) \div (10 * Len(e.groups[k]))) <= 1)

(* What each method of the command line stands for: big-M codes of the two  *)
(* extended formulations; split, initial partition, projection otherwise.   *)
CliConf(m) == CASE m = 1 -> <<1, 3>> [] m = 2 -> <<1, 2>>
                [] m = 3 -> <<1, 2, 2, 5>> [] m = 4 -> <<1, 3, 3, 5>>

LogNoTime(log) == [k \in DOMAIN log |-> <<log[k][1], log[k][3], log[k][4], log[k][6]>>]

(* cli: the command-line program, end to end.                               *)
JCli(e) ==
       Cl("C20", "exit_code", TRUE, e.rc = 0)
    \o Cl("C20", "result_file", TRUE, e.found = 1)
    \o Cl("C20", "lower_is_optimum", e.found = 1, IsOptimum(e.lb))
    \o Cl("C20", "upper_is_optimum", e.found = 1, IsOptimum(e.ub))
    \o Cl("C20", "instance", e.found = 1,
          e.name = e.want /\ e.n = st.I.n /\ e.m = st.I.m /\ e.N = st.I.N /\ e.type = st.I.cont)
    \o Cl("C20", "configuration", e.found = 1, e.conf = CliConf(e.method))
    \o Cl("C20", "risk", e.found = 1, Abs(e.eps - MulDiv(1000, st.I.en, st.I.ed)) <= 1)
    \o Cl("C20", "iteration_log", e.found = 1 /\ e.method > 2,
          /\ Len(e.log) > 0
          /\ e.log[1][1] = 1 /\ e.log[Len(e.log)][1] = e.iter
          /\ LogOrder(e.log) /\ LogBounds(e.log) /\ LogTightens(e.log)
          /\ LogGap(e.log) /\ LogSizes(e.log))
    \o Cl("C20", "log_file", e.found = 1, e.logged = 1)
    \* the same as a second run (method 3, seeded) or as a run with the     
    \* parameters the program stands for (method 4), apart from the times   
    \o Cl("C20", "as_documented", e.found = 1 /\ e.twinned = 1,
          LogNoTime(e.log) = LogNoTime(e.twin))
    \o Cl("C20", "saved_bounds", e.found = 1 /\ e.method <= 2,
          BoundsValid(e.bounds) /\ BoundsTighten(e.bounds))
    \o Cl("C20", "solved_gap", e.found = 1 /\ st.opt > 100, e.gap <= 11)

(* pipe: what the scripts of the three stages ask for.                      *)
(* e.gens: <<items, rows, scenarios, number of files>> per call of the      *)
(* generator; e.runs, e.asked: <<items, rows, scenarios, index, risk in     *)
(* hundredths, type, method>> per run and per result file exported.         *)
JPipe(e) ==
    LET R == Range(e.runs)
        F == Range(e.gens)
    IN Cl("C27", "sources", TRUE, e.lost = 0 /\ Len(e.gens) > 0)
    \o Cl("C27", "no_overwrite", TRUE,
          Cardinality({<<w[1], w[2], w[3]>> : w \in F}) = Len(e.gens))
    \o Cl("C27", "instances_made", TRUE,
          \A q \in R : /\ Len(q) = 7
                       /\ \E w \in F : w[1] = q[1] /\ w[2] = q[2] /\ w[3] = q[3]
                                       /\ q[4] \in 1..w[4])
    \o Cl("C27", "run_once", TRUE, Cardinality(R) = Len(e.runs))
    \o Cl("C27", "all_reported", TRUE, R = Range(e.asked))
    \o Cl("C27", "places", TRUE, e.places = 1)
(* pexp: the export after some of the runs, made with the arguments of the  *)
(* script, sees exactly these.                                              *)
JPexp(e) ==
       Cl("C27", "runs_work", TRUE, \A k \in DOMAIN e.rcs : e.rcs[k] = 0)
    \o Cl("C27", "export_works", TRUE, e.rc = 0)
    \o Cl("C27", "export_sees_runs", TRUE, Range(e.found) = Range(e.done))

(* crash: an operation on a valid input raised an exception.               *)
JCrash(e) == << <<PROP, "crash", FALSE>> >>

---------------------------------------------------------------------------
Judge(e) ==
    CASE e.e = "part0" -> JPart0(e)
      [] e.e = "iter" -> JIter(e)
      [] e.e = "bigm" -> JBigM(e)
      [] e.e = "hint" -> JHint(e)
      [] e.e = "ub" -> JUb(e)
      [] e.e = "feas" -> JFeas(e)
      [] e.e = "lb" -> JLb(e)
      [] e.e = "inc" -> JInc(e)
      [] e.e = "split" -> JSplit(e)
      [] e.e = "merge" -> JMerge(e)
      [] e.e = "pairs" -> JPairs(e)
      [] e.e = "end" -> JEnd(e)
      [] e.e = "milp" -> JMilp(e)
      [] e.e = "crash" -> JCrash(e)
      [] e.e \in {"inst", "save", "iter0", "pts"} -> <<>>
      [] e.e = "stop" -> JStop(e)
      [] e.e = "row" -> JRow(e)
      [] e.e = "fmt" -> JFmt(e)
      [] e.e = "find" -> JFind(e)
      [] e.e = "xrow" -> JXRow(e)
      [] e.e = "xbig" -> JXBig(e)
      [] e.e = "cli" -> JCli(e)
      [] e.e = "det" -> JDet(e)
      [] e.e = "bounds" -> JBounds(e)
      [] e.e = "twin" -> JTwin(e)
      [] e.e = "quant" -> JQuant(e)
      [] e.e = "load" -> JLoad(e)
      [] e.e = "viol" -> JViol(e)
      [] e.e = "accsplit" -> JAccSplit(e)
      [] e.e = "csplit" -> JCSplit(e)
      [] e.e = "warm" -> JWarm(e)
      [] e.e = "read" -> JRead(e)
      [] e.e = "gen" -> JGen(e)
      [] e.e = "pipe" -> JPipe(e)
      [] e.e = "pexp" -> JPexp(e)

Next1(e) ==
    CASE e.e = "inst" -> OnInst(e)
      [] e.e = "part0" -> [st EXCEPT !.part = Blocks(e.part), !.ub = e.ub, !.bub = e.ub]
      [] e.e = "lb" -> ULb(e)
      [] e.e = "inc" -> [st EXCEPT !.blb = IF e.found = 1 THEN Max2(@, e.obj) ELSE @]
      [] e.e = "iter" -> UIter(e)
      [] e.e = "iter0" -> [st EXCEPT !.part = Blocks(e.part)]
      [] e.e = "ub" -> UUb(e)
      [] e.e = "feas" -> UFeas(e)
      [] e.e = "save" -> USave(e)
      [] e.e = "split" -> USplit(e)
      [] e.e = "merge" -> UMerge(e)
      [] OTHER -> st

After(e) ==
    LET s == Next1(e)
        one(has, x) == IF has = 1 THEN {x} ELSE {}
    IN IF s.full THEN s
       ELSE CASE e.e = "part0" -> Learn(s, {}, e.ub)
              [] e.e = "pts" -> Learn(s, Range(e.pts), NAV)
              [] e.e = "iter" -> Learn(s, Range(e.sols), e.ub)
              [] e.e = "ub" -> Learn(s, {e.x}, e.bnd)
              [] e.e = "lb" -> Learn(s, one(e.hasx, e.xl), NAV)
              [] e.e = "inc" -> Learn(s, Range(e.cands), NAV)
              [] e.e = "end" -> Learn(s, one(e.hasl, e.xlb), e.ub)
              [] e.e = "milp" -> Learn(s, {e.x}, e.ub)
              [] e.e = "stop" -> Learn(s, one(e.hasl, e.xlb), e.ub)
              [] e.e = "det" -> Learn(s, {e.x}, NAV)
              [] OTHER -> s

Name(c) == c[1] \o "." \o c[2]
Count(js) == LET Ks == {Name(js[i]) : i \in DOMAIN js}
             IN [k \in Ks |-> (IF k \in DOMAIN cov THEN cov[k] ELSE 0) + 1] @@ cov

Init == l = 1 /\ st = Empty /\ cov = [k \in {} |-> 0]
Step == /\ l <= Len(Log)
        /\ LET e == Log[l]
               js == Judge(e)
           IN /\ \A i \in DOMAIN js :
                    IF js[i][3] THEN TRUE ELSE PrintT(<<"BAD", l, Name(js[i])>>)
              /\ cov' = Count(js)
              /\ st' = After(e)
        /\ l' = l + 1
        /\ IF l = Len(Log) THEN PrintT(<<"COV", ToJson(cov')>>) ELSE TRUE
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
