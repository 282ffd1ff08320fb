------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Literal refinement: recorded runs of the real code, step by step, as    *)
(* behaviours of Adaptive.tla.  Each logged event fixes the next values of *)
(* the variables that it shows; the action of Adaptive that belongs to it  *)
(* must allow them, and the iterations must show the state so reached.     *)
(* The runs of a file have the same N, P and merging; each begins with an  *)
(* initial state of its own.  A run that gets stuck at line l is not a     *)
(* behaviour of the specification; the invariants are checked on the way.  *)
(***************************************************************************)
EXTENDS Adaptive, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
LogN == Log[1].i.N
LogP == Tolerated(Log[1].i)
LogMerge == Log[1].g.merge = 1

VARIABLES l,     \* next line
          first  \* line on which this run begins

all == <<vars, l, first>>

InstOf(q) == Log[q].i
\* Points of Adaptive are pairs; values are compared within the tolerance
\* of the solver, by moving a logged one to the nearest value of the table.
TableOf(I) == {[o |-> q.o, v |-> q.v] : q \in Table(I)}
Margin(v) == 20 + Abs(v) \div 10000
Snap(v) == IF v >= INF \/ v <= -INF THEN v
           ELSE LET near == {q.o : q \in {w \in T : Abs(w.o - v) <= Margin(v)}}
                IN IF near = {} THEN v ELSE CHOOSE o \in near :
                                     \A u \in near : Abs(o - v) <= Abs(u - v)
PointOf(y) == LET I == InstOf(first) IN [o |-> Obj(I, y), v |-> Violated(I, y)]

\* First line after q whose event is one of S.
After(q, S) == SetMin({k \in q + 1..Len(Log) : Log[k].e \in S} \cup {Len(Log) + 1})
\* Lower bound after the search for an incumbent that belongs to line q.
Found(q) == LET k == After(q, {"inc"})
            IN IF k < After(q, {"iter", "split", "merge", "lb", "end", "inst"})
                  /\ k <= Len(Log) /\ Log[k].found = 1
               THEN Snap(Log[k].obj) ELSE lb

InitR == /\ first \in {q \in DOMAIN Log : Log[q].e = "inst"}
         /\ l = After(first, {"iter"})
         /\ T = TableOf(InstOf(first))
         /\ LET pt == Blocks(Log[After(first, {"part0"})].part)
            IN IsPartition(pt, N) /\ Len(pt) = P + 1 /\ Start(pt)
         /\ ub = Snap(Log[After(first, {"part0"})].ub)
         /\ lb = Snap(Log[l].lb)

Here(k) == l <= Len(Log) /\ Log[l].e = k
Take == l' = l + 1 /\ UNCHANGED first
OnIter == /\ Here("iter") /\ pc = "ub" /\ Take /\ UNCHANGED vars
          /\ Blocks(Log[l].part) = part
          /\ [k \in DOMAIN Log[l].costs |-> Snap(Log[l].costs[k])] = costs
          /\ Snap(Log[l].ub) = ub /\ Snap(Log[l].lb) = lb
OnUb == Here("ub") /\ Take /\ x' = PointOf(Log[l].x) /\ Upper
OnLb == /\ Here("lb") /\ Take
        /\ Range(Log[l].S) \in Kept
        /\ lb' = Max2(lb, Cost(T, Range(Log[l].S)))
        /\ Lower
OnSplit == Here("split") /\ Take /\ part' = Blocks(Log[l].new) /\ lb' = Found(l) /\ Split
OnMerge == Here("merge") /\ Take /\ part' = Blocks(Log[l].new) /\ lb' = Found(l) /\ Merge
NoMerge == Here("iter") /\ pc = "merge" /\ UNCHANGED <<l, first, part, lb>> /\ Merge
OnEnd == /\ Here("end") /\ pc = "done"
         /\ Snap(Log[l].ub) = ub /\ Snap(Log[l].lb) = lb
         /\ PrintT(<<"RUN", first, "OK">>)
         /\ l' = Len(Log) + 1 /\ UNCHANGED <<vars, first>>
Other == /\ l <= Len(Log)
         /\ Log[l].e \notin {"iter", "ub", "lb", "split", "merge", "end"}
         /\ Take /\ UNCHANGED vars
NextR == /\ OnIter \/ OnUb \/ OnLb \/ OnSplit \/ OnMerge \/ NoMerge \/ OnEnd \/ Other
         /\ PrintT(<<"AT", first, l'>>)
SpecR == InitR /\ [][NextR]_all
=============================================================================
