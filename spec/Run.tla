-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* A run of the command-line program around the solution method: it arms   *)
(* an alarm, constructs the method, solves in micro-steps between which an *)
(* interruption may strike, disarms the alarm, and writes the result row   *)
(* and the iteration log.  The method itself is reduced to what it does to *)
(* the bounds (Adaptive.tla has the rest): any valid bounds may be found.  *)
(*                                                                         *)
(* Two clocks: the alarm, which interrupts (KeyboardInterrupt), and the    *)
(* limit the method looks at between its steps.  The solver may be cut by  *)
(* either; a cut solve is never taken for a complete one.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS O,        \* objectives 0..O
          J,        \* iterations at most
          FAULT     \* "none" or a named mutation

INF == 1000
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

VARIABLES pc, opt, armed, out, lb, ub, x, xu, tub, tlb, iter, log, row, file

vars == <<pc, opt, armed, out, lb, ub, x, xu, tub, tlb, iter, log, row, file>>
(* pc    where the program is                                              *)
(* out   the limit has passed (monotone)                                   *)
(* x     objective of the stored feasible solution, -INF if there is none  *)
(* xu    last relaxed solution: <<objective, feasible>>                    *)
(* tub tlb  values just computed, not yet stored                           *)

NoRow == <<>>

Init == /\ pc = "arm" /\ opt \in 0..O
        /\ armed = FALSE /\ out = FALSE
        /\ lb = -INF /\ x = -INF /\ xu = <<INF, FALSE>>
        /\ ub = INF /\ tub = INF /\ tlb = -INF
        /\ iter = 0 /\ log = <<>> /\ row = NoRow /\ file = NoRow

Keep(vs) == UNCHANGED vs
Go(a, b) == pc = a /\ pc' = b

Arm == /\ Go("arm", "build") /\ armed' = TRUE
       /\ Keep(<<opt, out, lb, ub, x, xu, tub, tlb, iter, log, row, file>>)
\* Construction may give an upper bound (quantile).
Build == /\ Go("build", "costs")
         /\ ub' \in {INF} \cup opt..O
         /\ Keep(<<opt, armed, out, lb, x, xu, tub, tlb, iter, log, row, file>>)

(* Candidates for the incumbent: a solution is stored before its value.    *)
Candidate(from, to) ==
    /\ Go(from, to)
    /\ tlb' \in {-INF} \cup {v \in 0..opt : v > lb /\ v <= ub}
    /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, iter, log, row, file>>)
StoreX(from, to) ==
    /\ Go(from, to)
    /\ x' = IF tlb > -INF /\ FAULT # "forgetx" THEN tlb ELSE x
    /\ Keep(<<opt, armed, out, lb, ub, xu, tub, tlb, iter, log, row, file>>)
StoreLB(from, to) ==
    /\ Go(from, to)
    /\ lb' = IF tlb > -INF \/ FAULT = "anylb" THEN tlb ELSE lb
    /\ Keep(<<opt, armed, out, ub, x, xu, tub, tlb, iter, log, row, file>>)
Over == (out /\ FAULT # "latebegin") \/ iter = J
Begin == /\ Go("begin", IF Over THEN "end" ELSE "upper")
         /\ iter' = IF Over THEN iter ELSE iter + 1
         /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, tlb, log, row, file>>)

(* The relaxed problem.  Cut by the limit it yields a bound and perhaps a  *)
(* solution that is not optimal; both are valid for what they are.         *)
Upper == /\ pc = "upper"
         /\ \/ /\ tub' \in opt..O /\ xu' \in {<<tub', FALSE>>, <<opt, TRUE>>}
               /\ (xu'[2] => tub' = opt)          \* solved
               /\ out' = out
            \/ /\ out' = TRUE                       \* cut by the limit
               /\ tub' \in opt..O /\ xu' = <<-INF, FALSE>>
            \/ /\ FAULT = "takecut" /\ out' = TRUE  \* a cut solve is taken
               /\ xu' \in {<<v, TRUE>> : v \in 0..opt} /\ tub' = xu'[1]
         /\ pc' = IF out' /\ FAULT # "takecut" THEN "end" ELSE "storeub"
         /\ Keep(<<opt, armed, lb, ub, x, tlb, iter, log, row, file>>)
StoreUB == /\ Go("storeub", "log1")
           /\ ub' = IF FAULT = "anyub" THEN tub ELSE Min2(ub, tub)
           /\ Keep(<<opt, armed, out, lb, x, xu, tub, tlb, iter, log, row, file>>)
Log(from, to) ==
    /\ Go(from, to)
    /\ log' = Append(log, <<iter, lb, ub>>)
    /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, tlb, iter, row, file>>)
Decide == /\ pc = "decide"
          /\ pc' = IF xu[2] THEN "closelb" ELSE IF out THEN "end" ELSE "lower"
          /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, tlb, iter, log, row, file>>)
(* The projection stores its value before its solution.                    *)
Lower == /\ Go("lower", "lowerlb")
         /\ tlb' \in {-INF} \cup {v \in 0..opt : v > lb}
         /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, iter, log, row, file>>)
Gap == /\ pc = "gap"
       /\ pc' = IF lb = ub \/ out THEN "end" ELSE "split"
       /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, tlb, iter, log, row, file>>)
\* The run has found an optimum: the bounds meet.
CloseLB == /\ Go("closelb", "closex")
           /\ lb' = ub
           /\ Keep(<<opt, armed, out, ub, x, xu, tub, tlb, iter, log, row, file>>)
CloseX == /\ Go("closex", "end")
          /\ x' = xu[1]
          /\ Keep(<<opt, armed, out, lb, ub, xu, tub, tlb, iter, log, row, file>>)
Solve == \/ Candidate("costs", "c1") \/ StoreX("c1", "c2") \/ StoreLB("c2", "begin")
         \/ Begin \/ Upper \/ StoreUB \/ Log("log1", "decide") \/ Decide
         \/ Lower \/ StoreLB("lowerlb", "lowerx") \/ StoreX("lowerx", "log2")
         \/ Log("log2", "gap") \/ Gap
         \/ Candidate("split", "s1") \/ StoreX("s1", "s2") \/ StoreLB("s2", "begin")
         \/ CloseLB \/ CloseX
Solving == {"costs", "c1", "c2", "begin", "upper", "storeub", "log1", "decide",
            "lower", "lowerlb", "lowerx", "log2", "gap", "split", "s1", "s2",
            "closelb", "closex", "end"}

(* The end: the alarm is disarmed inside the guarded part of the program.  *)
Disarm == /\ Go("end", "row")
          /\ armed' = IF FAULT = "nodisarm" THEN armed ELSE FALSE
          /\ Keep(<<opt, out, lb, ub, x, xu, tub, tlb, iter, log, row, file>>)
WriteRow == /\ Go("row", "file")
            /\ row' = <<iter, lb, ub>>
            /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, tlb, iter, log, file>>)
WriteLog == /\ Go("file", "done")
            /\ file' = log
            /\ Keep(<<opt, armed, out, lb, ub, x, xu, tub, tlb, iter, log, row>>)
(* The alarm: caught in the guarded part, deadly outside.                  *)
Alarm == /\ armed /\ pc \notin {"build", "done", "dead"}
         /\ armed' = FALSE
         /\ pc' = IF pc \in Solving THEN "row" ELSE "dead"
         /\ Keep(<<opt, out, lb, ub, x, xu, tub, tlb, iter, log, row, file>>)
(* The limit passes silently, between any two steps.                       *)
Tick == /\ ~out /\ pc \in Solving /\ out' = TRUE
        /\ Keep(<<pc, opt, armed, lb, ub, x, xu, tub, tlb, iter, log, row, file>>)

Next == Arm \/ Build \/ Solve \/ Disarm \/ WriteRow \/ WriteLog \/ Alarm \/ Tick
        \/ (pc \in {"done", "dead"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* C02, C16: whenever the run is cut, the bounds bracket the optimum
Bracket == lb <= opt /\ opt <= ub
\* C16: the stored solution is feasible (its value is at most the optimum),
\* and attains the lower bound between iterations
Feasible == x <= opt
Attained == pc \in {"begin", "upper", "gap", "split"} => lb = x
\* C17: the files agree with the run
Report == pc = "done" => row = <<iter, lb, ub>> /\ file = log
LogOK == /\ \A k \in DOMAIN log : /\ log[k][2] <= opt /\ opt <= log[k][3]
                                  /\ log[k][1] \in 1..iter
         /\ \A k \in 1..(Len(log) - 1) :
               /\ log[k + 1][1] \in {log[k][1], log[k][1] + 1}
               /\ log[k + 1][2] >= log[k][2] /\ log[k + 1][3] <= log[k][3]
         /\ Len(log) > 0 => log[Len(log)][2] <= lb /\ ub <= log[Len(log)][3]
Alive == pc # "dead"
Inv == Bracket /\ Feasible /\ Attained /\ Report /\ LogOK /\ Alive
\* C16: no iteration is begun after the limit has passed
NoLate == [][iter' > iter => ~out]_vars
\* C16: the program always ends with its files
Written == <>(pc = "done")
=============================================================================
