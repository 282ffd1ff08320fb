------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Instance files: the generator writes one from deterministic data, the   *)
(* program reads it line by line.  What is read is what was generated.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NV, NR, NS,   \* variables, rows, scenarios: 1..these
          FAULT

VARIABLES n, m, N, c, A, b,     \* deterministic source
          fail,                 \* items failing per scenario
          rnd,                  \* scatter of every entry
          lines, pc, s, i, got

vars == <<n, m, N, c, A, b, fail, rnd, lines, pc, s, i, got>>
Val == {0, 2}

Init == /\ n \in 1..NV /\ m \in 1..NR /\ N \in 1..NS
        /\ c \in [1..n -> {1}] /\ b \in [1..m -> {5, 6}]
        /\ A \in [1..m -> [1..n -> Val]]
        /\ fail \in [1..N -> SUBSET (1..n)]
        /\ rnd \in [1..N -> {-1, 0, 1}]
        /\ lines = <<>> /\ pc = "head" /\ s = 1 /\ i = 1
        /\ got = [A |-> <<>>, b |-> <<>>, c |-> <<>>, n |-> 0, m |-> 0, N |-> 0]

Entry(t, k, q) == LET w == A[k][q] IN
    IF q \in fail[t] THEN 0 ELSE IF w = 0 THEN 0 ELSE w + rnd[t]
Header == /\ pc = "head" /\ pc' = "gen"
        /\ lines' = << <<n, m, N>>, c >>
        /\ UNCHANGED <<n, m, N, c, A, b, fail, rnd, s, i, got>>
\* one scenario after the other, all its rows
Gen == /\ pc = "gen"
       /\ lines' = lines \o [k \in 1..m |-> [q \in 1..n |-> Entry(s, k, q)]]
       /\ IF s = N THEN s' = 1 /\ pc' = "tail" ELSE s' = s + 1 /\ pc' = pc
       /\ UNCHANGED <<n, m, N, c, A, b, fail, rnd, i, got>>
TailLine == /\ pc = "tail" /\ pc' = "open"
            /\ lines' = Append(lines, b)
            /\ UNCHANGED <<n, m, N, c, A, b, fail, rnd, s, i, got>>
Open == /\ pc = "open" /\ pc' = "rows"
        /\ got' = [got EXCEPT !.n = lines[1][1], !.m = lines[1][2], !.N = lines[1][3],
                              !.c = lines[2], !.A = [t \in 1..lines[1][3] |-> <<>>]]
        /\ UNCHANGED <<n, m, N, c, A, b, fail, rnd, lines, s, i>>
\* row i of scenario s stands on line 2 + (s - 1) m + i
Rows == /\ pc = "rows"
        /\ LET at == 2 + (s - 1) * (IF FAULT = "stride" THEN got.n ELSE got.m) + i
           IN got' = [got EXCEPT !.A[s] = Append(@, IF at \in DOMAIN lines
                                                    THEN lines[at] ELSE <<>>)]
        /\ IF i < got.m THEN i' = i + 1 /\ UNCHANGED <<s, pc>>
           ELSE /\ i' = 1
                /\ IF s = got.N THEN pc' = "caps" /\ s' = s ELSE s' = s + 1 /\ pc' = pc
        /\ UNCHANGED <<n, m, N, c, A, b, fail, rnd, lines>>
Caps == /\ pc = "caps" /\ pc' = "done"
        /\ got' = [got EXCEPT !.b = lines[IF FAULT = "caps" THEN 2 + got.m + 1
                                         ELSE Len(lines)]]
        /\ UNCHANGED <<n, m, N, c, A, b, fail, rnd, lines, s, i>>
Next == Header \/ Gen \/ TailLine \/ Open \/ Rows \/ Caps
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* C19
Faithful == pc = "done" =>
    /\ got.n = n /\ got.m = m /\ got.N = N /\ got.c = c /\ got.b = b
    /\ got.A = [t \in 1..N |-> [k \in 1..m |-> [q \in 1..n |-> Entry(t, k, q)]]]
LineCount == pc \in {"open", "rows", "caps", "done"} => Len(lines) = 3 + N * m
\* an item fails in all rows of a scenario or in none
Whole == pc = "done" => \A t \in 1..N, q \in 1..n : \A k, h \in 1..m :
            (A[k][q] > 0 /\ A[h][q] > 0) => (got.A[t][k][q] = 0 <=> got.A[t][h][q] = 0)
Inv == Faithful /\ LineCount /\ Whole
Ends == <>(pc = "done")
=============================================================================
