------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The three stages of an experiment: the generating script writes         *)
(* instance files, the running script starts one run per configuration,    *)
(* the export reads result files.  The stages only meet in file names, and *)
(* runs may be stopped and resumed at any time: whenever the export is     *)
(* started it must see exactly the runs made so far, under their own       *)
(* configuration, and once everything has run nothing may be missing.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS SIZES, SCEN, IDS, KINDSOF, RISKS, METHODS, FAULT

VARIABLES inst,     \* instance files: name -> what is in them
          disk,     \* result files: name -> configuration that was run
          made      \* configurations run so far

vars == <<inst, disk, made>>

Sources == SIZES                       \* one deterministic file per size
InstName(n, s, j) == "ccmknap-" \o n \o "-" \o ToString(s) \o "-" \o ToString(j)
Conf == [size : SIZES, s : SCEN, j : IDS, c : KINDSOF, e : RISKS, m : METHODS]
Wanted == IF FAULT = "fewer" THEN {k \in Conf : k.j # 1} ELSE Conf
ResName(k) == InstName(k.size, k.s, k.j)
              \o (IF FAULT = "norisk" THEN "" ELSE "-" \o ToString(k.e))
              \o "-" \o ToString(k.c) \o "-" \o ToString(k.m)
Ask(k) == IF FAULT = "ask" THEN InstName(k.size, k.j, k.s) \o "-" \o ToString(k.e)
                                \o "-" \o ToString(k.c) \o "-" \o ToString(k.m)
          ELSE ResName(k)

None == [f \in {} |-> 0]
Init == inst = None /\ disk = None /\ made = {}
Generate(n, s) ==
    /\ \E j \in IDS : InstName(n, s, j) \notin DOMAIN inst
    /\ inst' = [f \in {InstName(IF FAULT = "clash" THEN "x" ELSE n, s, j) : j \in IDS}
                |-> <<n, s>>] @@ inst
    /\ UNCHANGED <<disk, made>>
Run(k) == /\ k \in Wanted \ made
          /\ InstName(k.size, k.s, k.j) \in DOMAIN inst
          /\ disk' = (ResName(k) :> k) @@ disk
          /\ made' = made \cup {k}
          /\ UNCHANGED inst
Next == (\E n \in Sources, s \in SCEN : Generate(n, s)) \/ (\E k \in Conf : Run(k))
Spec == Init /\ [][Next]_vars
        /\ \A n \in Sources, s \in SCEN : WF_vars(Generate(n, s))
        /\ \A k \in Conf : WF_vars(Run(k))

---------------------------------------------------------------------------
\* C27, checked in every state: what an export started now would see
Now == {k \in Conf : Ask(k) \in DOMAIN disk}
Honest == Now = made /\ \A k \in Now : disk[Ask(k)] = k
Kept == \A f \in DOMAIN inst : \E j \in IDS : f = InstName(inst[f][1], inst[f][2], j)
Apart == Cardinality(DOMAIN disk) = Cardinality(made)
Inv == Honest /\ Kept /\ Apart
Complete == <>[](made = Conf)
=============================================================================
