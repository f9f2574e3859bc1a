---------------------------------- MODULE Memory -------------------------------
(* Room, block by block: making a structure takes rough room, a table and a list, gives    *)
(* the rough room back and trims the table; converting copies; a traversal keeps nothing;   *)
(* freeing gives everything back. Several threads at once; held is what Ledger books.       *)
EXTENDS Ledger, Sequences
CONSTANTS H, T, Sizes, Made, Bug
VARIABLES heap, held, doing, made
vars == <<heap, held, doing, made>>
(* heap: block |-> <<bytes>>; a block is <<handle, kind>> or <<thread, "rough">> *)
Idle == <<"idle">>
Room(h) == Total(heap, {b \in DOMAIN heap : b[1] = h})
Take(m, b, x) == Put(m, b, x)
Init == heap = [b \in {} |-> 0] /\ held = [h \in {} |-> 0] /\ made = 0 /\ doing = [t \in T |-> Idle]
Taken(h) == h \in DOMAIN held \/ \E t \in T : doing[t] # Idle /\ doing[t][2] = h /\ doing[t][1] # "use"
Users(h) == {t \in T : doing[t] # Idle /\ (doing[t][2] = h \/ (doing[t][1] = "wide" /\ doing[t][3] = h))}
(* Making: rough room and a table with room for every node there could be *)
Start(t) ==
  /\ doing[t] = Idle /\ made < Made
  /\ \E h \in H, n \in Sizes :
       /\ ~Taken(h)
       /\ doing' = [doing EXCEPT ![t] = <<"make", h, n>>]
       /\ heap' = Take(Take(Take(heap, <<t, "rough">>, n), <<h, "table">>, 2 * n), <<h, "list">>, n)
  /\ made' = made + 1 /\ UNCHANGED held
(* Done: as many nodes as were needed; the rough room is given back *)
Finish(t) ==
  /\ doing[t][1] = "make"
  /\ LET h == doing[t][2] n == doing[t][3]
     IN \E used \in {1, 2 * n - 1} :
          LET m == [heap EXCEPT ![<<h, "table">>] = used]
              r == IF Bug = "kept" /\ used = 1 THEN m ELSE Drop(m, <<t, "rough">>)
          IN heap' = r /\ held' = Put(held, h, used + n)
  /\ doing' = [doing EXCEPT ![t] = Idle] /\ UNCHANGED made
(* Converting: a table of its own, and a list of its own; what it was made from stays *)
Convert(t) ==
  /\ doing[t] = Idle /\ made < Made
  /\ \E g \in DOMAIN held, h \in H :
       /\ ~Taken(h) /\ ~\E u \in Users(g) : doing[u][1] = "free"
       /\ doing' = [doing EXCEPT ![t] = <<"wide", h, g>>]
       /\ heap' = Take(heap, <<h, "list">>, heap[<<g, "list">>])
  /\ made' = made + 1 /\ UNCHANGED held
Converted(t) ==
  /\ doing[t][1] = "wide"
  /\ LET h == doing[t][2] g == doing[t][3]
     IN /\ heap' = Take(heap, <<h, "table">>, heap[<<g, "table">>])
        /\ held' = Put(held, h, heap[<<g, "table">>] + heap[<<h, "list">>])
  /\ doing' = [doing EXCEPT ![t] = Idle] /\ UNCHANGED made
(* Traversing or refitting what lives, left at any time *)
Use(t) ==
  /\ doing[t] = Idle
  /\ \E h \in DOMAIN held : ~(\E u \in Users(h) : doing[u][1] = "free") /\ doing' = [doing EXCEPT ![t] = <<"use", h>>]
  /\ UNCHANGED <<heap, held, made>>
Leave(t) ==
  /\ doing[t][1] = "use" /\ doing' = [doing EXCEPT ![t] = Idle]
  /\ heap' = IF Bug = "stack" THEN Take(heap, <<t, "stack">>, 1) ELSE heap
  /\ UNCHANGED <<held, made>>
(* Freeing what nobody uses: out of the registry first, then its blocks one after the other *)
Free(t) ==
  /\ doing[t] = Idle
  /\ \E h \in DOMAIN held : Users(h) = {} /\ doing' = [doing EXCEPT ![t] = <<"free", h>>] /\ held' = Drop(held, h)
  /\ UNCHANGED <<heap, made>>
Released(t) ==
  /\ doing[t][1] = "free"
  /\ LET h == doing[t][2] mine == {b \in DOMAIN heap : b[1] = h}
     IN IF mine = {} \/ Bug = "retire" \/ (Bug = "list" /\ mine = {<<h, "list">>})
        THEN doing' = [doing EXCEPT ![t] = Idle] /\ UNCHANGED heap
        ELSE \E b \in mine : heap' = Drop(heap, b) /\ UNCHANGED doing
  /\ UNCHANGED <<held, made>>
Next == \E t \in T : Start(t) \/ Finish(t) \/ Convert(t) \/ Converted(t) \/ Use(t) \/ Leave(t) \/ Free(t) \/ Released(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Finish(t) \/ Converted(t) \/ Leave(t) \/ Released(t))
(* C28: when nothing is under way, the room in use is that of the structures that live *)
Even == (\A t \in T : doing[t] = Idle) => Total(heap, DOMAIN heap) = Total(held, DOMAIN held)
(* and at any time every block has somebody it belongs to: what lives, or what is being made or freed *)
Owned == \A b \in DOMAIN heap : \/ b[1] \in DOMAIN held
                                \/ \E t \in T : doing[t] # Idle /\ (b[1] = t \/ b[1] = doing[t][2])
Whole == \A h \in DOMAIN held : Room(h) = held[h]
================================================================================
