------------------------------ MODULE RegistryRuns ------------------------------
(* All sequences of NC calls to the C interface up to the choice of scenes and builders:    *)
(* printed to be played to the real one, on one thread, looking at everything after a call. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT NC
VARIABLES h, b, w       \* the calls, how many binary and 4-wide handles they returned
vars == <<h, b, w>>
Init == h = <<>> /\ b = 0 /\ w = 0
Call(c) == h' = Append(h, c)
Next ==
  /\ Len(h) < NC
  /\ \/ Call(<<"create", b + 1>>) /\ b' = b + 1 /\ w' = w
     \/ \E i \in 1..b : \/ Call(<<"wide", i, w + 1>>) /\ w' = w + 1 /\ b' = b
                        \/ Call(<<"refit", i>>) /\ UNCHANGED <<b, w>>
                        \/ Call(<<"free", i>>) /\ UNCHANGED <<b, w>>
     \/ \E i \in 1..w : Call(<<"freew", i>>) /\ UNCHANGED <<b, w>>
RunSpec == Init /\ [][Next]_vars
Told == Len(h) = NC => PrintT(ToJson(h))
================================================================================
