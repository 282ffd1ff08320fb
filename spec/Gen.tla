-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Enumerates tables (instances, see CCP.tla) for replay into the code:    *)
(* one initial state per table, printed as JSON.  Only tables on which the *)
(* method has something to do: an infeasible point beats the optimum.      *)
(***************************************************************************)
EXTENDS CCP, TLC, Json, FiniteSetsExt
CONSTANTS N, P, K, O
VARIABLE T
Points == [o : 1..O, v : SUBSET (1..N)]
Tables == UNION {kSubset(k, Points) : k \in 1..K}
Canonical(S) == \A s \in 2..N :
    Cardinality({q \in S : s \in q.v}) <= Cardinality({q \in S : s - 1 \in q.v})
Zero == [o |-> 0, v |-> {}]
Interesting(S) ==
    /\ \E q \in S : Cardinality(q.v) > P /\ q.o >= Opt(S \cup {Zero}, P)
    /\ \A q \in S : Cardinality(q.v) < N
Flat(S) == LET Q == SetToSeq(S) IN [k \in DOMAIN Q |-> <<Q[k].o, SetToSeq(Q[k].v)>>]
Init == /\ T \in {S \in Tables : Canonical(S) /\ Interesting(S)}
        /\ PrintT(<<"TABLE", ToJson(<<N, P, Flat(T)>>)>>)
Next == FALSE /\ T' = T
Spec == Init /\ [][Next]_T
=============================================================================
