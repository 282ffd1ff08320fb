------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The way from runs to a row of a table: every run of the command line    *)
(* writes its result under a name; the export reads the files of a row     *)
(* name by name, counts what is solved in a first pass, adds times or gaps *)
(* in a second one, and picks the method to highlight.  What it shows must *)
(* be what Cells.tla says about the results of that row and no others.     *)
(***************************************************************************)
EXTENDS Cells, TLC

CONSTANTS JJ,     \* instances per cell
          KINDS,  \* number of different results
          FAULT

VARIABLES res,    \* results of the runs: key -> <<time, gap, iters>> or <<>>
          disk,   \* name -> result
          pc, m, j, nsolved, all, sum, iters, cells, best

vars == <<res, disk, pc, m, j, nsolved, all, sum, iters, cells, best>>

Methods == {2, 3}              \* an extended formulation, an adaptive method
Req == 10
Some == Range(SubSeq(<< <<1000, 0, 1000>>, <<3000, 20, 1000>>, <<3000, 10, 2000>>,
                        <<2000, 60, 3000>> >>, 1, KINDS))
Missing == <<>>
\* the row under study (risk 10), and another one (risk 20)
Keys == {<<e, k, q>> : e \in {10, 20}, k \in 1..JJ, q \in Methods}
Other == <<9000, 90, 9000>>

\* as main.py names its file, and as the export asks for it
FileName(key) == "ccmknap-10-10-500-" \o ToString(key[2]) \o "-"
                 \o (IF FAULT = "noeps" THEN "" ELSE ToString(key[1]) \o "-")
                 \o "0-" \o ToString(key[3]) \o ".csv"
Asked(e, k, q) == "ccmknap-10-10" \o "-" \o "500" \o "-" \o ToString(k) \o "-"
                  \o (IF FAULT = "noeps" THEN "" ELSE ToString(e) \o "-")
                  \o "0" \o "-" \o ToString(q) \o ".csv"
\* distinct runs never share a file
Name(i, s, k, e, c, q) == i \o "-" \o ToString(s) \o "-" \o ToString(k) \o "-"
                          \o ToString(e) \o "-" \o ToString(c) \o "-" \o ToString(q)
All == {"ccmknap-10-10", "ccmknap-40-30"} \X {500, 5000} \X {1, 2, 11} \X {1, 10, 11}
       \X {0, 1} \X {1, 2}
ASSUME Cardinality({Name(w[1], w[2], w[3], w[4], w[5], w[6]) : w \in All})
       = Cardinality(All)

Init == /\ res \in [Keys -> Some \cup {Missing, Other}]
        /\ \A key \in Keys : (key[1] = 20) <=> (res[key] = Other)
        /\ disk = [f \in {} |-> <<>>]
        /\ pc = "write" /\ m = 2 /\ j = 1
        /\ nsolved = 0 /\ all = TRUE /\ sum = 0 /\ iters = 0
        /\ cells = [q \in {} |-> 0] /\ best = 0

\* The runs: order does not matter (a run only writes its own file).
Write == /\ pc = "write" /\ pc' = "look"
         /\ disk' = [f \in {FileName(key) : key \in {w \in Keys : res[w] # Missing}} |->
                       LET S == {key \in Keys : res[key] # Missing /\ FileName(key) = f}
                       IN res[CHOOSE key \in S : \A w \in S : key[1] >= w[1]]]
         /\ UNCHANGED <<res, m, j, nsolved, all, sum, iters, cells, best>>
File(k) == Asked(10, k, m)
Look == /\ pc = "look"
        /\ IF \E k \in 1..JJ : File(k) \notin DOMAIN disk
           THEN /\ cells' = (m :> [miss |-> TRUE]) @@ cells
                /\ pc' = "next" /\ UNCHANGED <<j, nsolved, all, sum, iters>>
           ELSE /\ pc' = "count" /\ j' = 1 /\ nsolved' = 0 /\ all' = TRUE
                /\ sum' = 0 /\ iters' = 0 /\ UNCHANGED cells
        /\ UNCHANGED <<res, disk, m, best>>
Row == disk[File(j)]
Pass1 == /\ pc = "count"
         /\ LET ok == IF FAULT = "strict" THEN Row[2] < Req ELSE Row[2] <= Req
            IN /\ nsolved' = nsolved + (IF ok THEN 1 ELSE 0)
               /\ all' = (all /\ ok)
         /\ IF j = JJ THEN j' = 1 /\ pc' = "add" ELSE j' = j + 1 /\ pc' = pc
         /\ UNCHANGED <<res, disk, m, sum, iters, cells, best>>
Pass2 == /\ pc = "add"
         /\ sum' = sum + (IF all \/ FAULT = "time" THEN Row[1] ELSE Row[2])
         /\ iters' = iters + Row[3]
         /\ IF j = JJ THEN j' = 1 /\ pc' = "cell" ELSE j' = j + 1 /\ pc' = pc
         /\ UNCHANGED <<res, disk, m, nsolved, all, cells, best>>
Put == /\ pc = "cell" /\ pc' = "next"
       /\ cells' = (m :> [miss |-> FALSE, all |-> all, solved |-> nsolved, sum |-> sum,
                          iters |-> iters]) @@ cells
       /\ UNCHANGED <<res, disk, m, j, nsolved, all, sum, iters, best>>
NextM == /\ pc = "next"
         /\ IF m = 3 THEN pc' = "best" /\ m' = m ELSE m' = m + 1 /\ pc' = "look"
         /\ UNCHANGED <<res, disk, j, nsolved, all, sum, iters, cells, best>>
(* argmin of the times; if none is finite, argmin of the gaps among those  *)
(* that solve most (a missing method solves none, and its gap is infinite) *)
TimeOf(q) == IF cells[q].miss \/ ~cells[q].all THEN INF ELSE cells[q].sum
GapOf(q) == IF cells[q].miss \/ cells[q].all THEN INF ELSE cells[q].sum
SolvedBy(q) == IF cells[q].miss THEN 0 ELSE cells[q].solved
ArgMin(f(_), S) == CHOOSE q \in S : \A w \in S : f(q) < f(w) \/ (f(q) = f(w) /\ q <= w)
Pick == /\ pc = "best" /\ pc' = "done"
        /\ best' = LET q == ArgMin(TimeOf, Methods) IN
                   IF TimeOf(q) < INF /\ FAULT # "gapbest" THEN q
                   ELSE LET top == SetMax({SolvedBy(w) : w \in Methods})
                        IN ArgMin(GapOf, {w \in Methods : SolvedBy(w) = top})
        /\ UNCHANGED <<res, disk, m, j, nsolved, all, sum, iters, cells>>
Next == Write \/ Look \/ Pass1 \/ Pass2 \/ Put \/ NextM \/ Pick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Results(q) == IF \E k \in 1..JJ : res[<<10, k, q>>] = Missing THEN <<>>
              ELSE [k \in 1..JJ |-> res[<<10, k, q>>]]
\* C24
CellsOK == \A q \in DOMAIN cells :
    IF Results(q) = <<>> THEN cells[q].miss
    ELSE LET c == Cell(Results(q), Req, TRUE)
         IN /\ ~cells[q].miss /\ cells[q].solved = c.solved
            /\ (IF cells[q].all THEN 1 ELSE 0) = c.all
            /\ cells[q].sum \div (10 * JJ) = c.value
            /\ cells[q].iters \div JJ = c.iters
BestOK == pc = "done" =>
    best \in {q + 1 : q \in BestMethods(<<Results(2), Results(3)>>, Req, 0)}
Inv == CellsOK /\ BestOK
Ends == <>(pc = "done")
=============================================================================
