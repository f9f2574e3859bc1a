------------------------------ MODULE TraverseRuns ------------------------------
(* The scenarios of Traverse, printed to be played to the real traversals. *)
EXTENDS Traverse, Json, TLC
Seq0(f, n) == [i \in 1..n |-> f[i - 1]]
Scenario == [T |-> T, hit |-> [r \in R |-> Seq0(hit[r], Cardinality(Entries))], extra |-> extra, miss |-> D + 1]
InitOne == Init /\ mode = "closest" /\ PrintT(ToJson(Scenario))
RunSpec == InitOne /\ [][FALSE]_vars
================================================================================
