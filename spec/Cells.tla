------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* What a cell, and the best method, of an exported table are.             *)
(* A result is <<time, gap, iterations>> in thousandths; the results of a  *)
(* method are a sequence, <<>> when one is missing.                        *)
(***************************************************************************)
EXTENDS CCP

Cell(rows, req, part) ==
    LET n == Len(rows)
        solved == {k \in 1..n : rows[k][2] <= req}
        all == Cardinality(solved) = n
        sum(c) == SumSeq([k \in 1..n |-> rows[k][c]])
    IN [all |-> IF all THEN 1 ELSE 0, solved |-> Cardinality(solved),
        value |-> sum(IF all THEN 1 ELSE 2) \div (10 * n),  \* hundredths
        iters |-> IF part THEN sum(3) \div n ELSE 0]

(* The methods that may be highlighted: the fastest of those that solve    *)
(* everything, or else the smallest gap of those that solve most.  Values  *)
(* within tol of the best may go either way.                               *)
Present(methods) == {m \in DOMAIN methods : Len(methods[m]) > 0}
BestMethods(methods, req, tol) ==
    LET c == [m \in Present(methods) |-> Cell(methods[m], req, m > 2)]
        S == {m \in DOMAIN c : c[m].all = 1}
        top == SetMax({c[m].solved : m \in DOMAIN c})
        U == {m \in DOMAIN c : c[m].solved = top}
        least(W) == {m \in W : \A q \in W : c[m].value <= c[q].value + tol}
    IN IF S # {} THEN least(S)
       ELSE IF DOMAIN c = {} THEN DOMAIN methods
       ELSE least(U)
=============================================================================
