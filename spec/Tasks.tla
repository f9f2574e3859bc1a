---------------------------------- MODULE Tasks --------------------------------
(* Top-down building by several threads: the task spawner, the node counter the tasks     *)
(* share, and the index ranges they own. Where an item is split is a function of the item  *)
(* alone (the code computes it from the boxes in the range), chosen freely beforehand.     *)
(* A task is run by taking it from a thread's stack, allocating two nodes, writing them    *)
(* and handing the larger child to a new thread when it is large enough.                   *)
EXTENDS Shapes, TLC
CONSTANTS NP,         \* primitives
          Threshold,  \* items with more primitives are handed to new threads
          Bug
VARIABLES cut,        \* item <<b, e>> that comes up -> where it is split; b: it becomes a leaf
          nodes,      \* node -> <<count, first, b, e>>, <<>> if not written yet
          counter,    \* next free node
          threads,    \* thread -> [stack: items, pc, item, got]
          flight      \* threads in flight, as the spawner counts them
vars == <<cut, nodes, counter, threads, flight>>

Size(x) == x[2] - x[1]
Idle == [stack |-> <<>>, pc |-> "take", item |-> <<>>, got |-> 0]

(* An item <<b, e, node>>, cut at c: which tree, as nested <<b, e, l, r>> *)
RECURSIVE Ideal(_, _)
Ideal(b, e) == IF cut[<<b, e>>] = b THEN <<b, e>> ELSE <<b, e, Ideal(b, cut[<<b, e>>]), Ideal(cut[<<b, e>>], e)>>

(* All ways to cut a range down to leaves, as functions of the items that come up *)
RECURSIVE Plans(_, _)
Plans(b, e) ==
  {(<<b, e>> :> b)} \cup
  UNION {{(<<b, e>> :> m) @@ l @@ r : l \in Plans(b, m), r \in Plans(m, e)} : m \in (b + 1)..(e - 1)}

Init ==
  /\ cut \in Plans(0, NP)
  /\ nodes = [n \in 0..(2 * NP - 2) |-> <<>>]
  /\ counter = 1
  /\ threads = <<[Idle EXCEPT !.stack = <<<<0, NP, 0>>>>]>>
  /\ flight = 1

Me(i, t) == threads' = [threads EXCEPT ![i] = t]
Take(i) ==
  LET t == threads[i] IN
  /\ t.pc = "take" /\ t.stack # <<>>
  /\ LET x == t.stack[Len(t.stack)]
         rest == SubSeq(t.stack, 1, Len(t.stack) - 1)
     IN IF cut[<<x[1], x[2]>>] = x[1]
        THEN /\ nodes' = [nodes EXCEPT ![x[3]] = <<Size(x), x[1], x[1], x[2]>>]
             /\ Me(i, [t EXCEPT !.stack = rest])
        ELSE /\ Me(i, [t EXCEPT !.stack = rest, !.pc = "alloc", !.item = x])
             /\ UNCHANGED nodes
  /\ UNCHANGED <<cut, counter, flight>>
(* fetch_add is one step; reading and writing separately would be two *)
Alloc(i) ==
  LET t == threads[i] IN
  /\ t.pc = "alloc"
  /\ IF Bug = "two-steps" THEN Me(i, [t EXCEPT !.pc = "store", !.got = counter]) /\ UNCHANGED counter
     ELSE Me(i, [t EXCEPT !.pc = "split", !.got = counter]) /\ counter' = counter + 2
  /\ UNCHANGED <<cut, nodes, flight>>
Store(i) ==
  LET t == threads[i] IN
  /\ t.pc = "store" /\ counter' = t.got + 2 /\ Me(i, [t EXCEPT !.pc = "split"])
  /\ UNCHANGED <<cut, nodes, flight>>
Split(i) ==
  LET t == threads[i]
      x == t.item
      c == cut[<<x[1], x[2]>>]
      l == <<x[1], c, t.got>>
      r == <<c, x[2], t.got + 1>>
      big == IF Size(l) < Size(r) THEN r ELSE l
      small == IF big = l THEN r ELSE l
      spawn == Size(big) > Threshold
      mine == IF spawn THEN Append(t.stack, small) ELSE t.stack \o <<small, big>>
      me == [t EXCEPT !.pc = "take", !.item = <<>>, !.got = 0, !.stack = mine]
  IN /\ t.pc = "split"
     /\ t.got + 1 <= 2 * NP - 2          \* else: the allocator has no node left
     /\ nodes' = [nodes EXCEPT ![x[3]] = <<-1, t.got, x[1], x[2]>>]
     /\ IF spawn
        THEN /\ threads' = Append([threads EXCEPT ![i] = me],
                                  [Idle EXCEPT !.stack = IF Bug = "lost-task" /\ Len(threads) = 2 THEN <<>> ELSE <<big>>])
             /\ flight' = flight + 1
        ELSE Me(i, me) /\ UNCHANGED flight
     /\ UNCHANGED <<cut, counter>>
Exit(i) ==
  LET t == threads[i] IN
  /\ t.pc = "take" /\ t.stack = <<>>
  /\ Me(i, [t EXCEPT !.pc = "gone"])
  /\ flight' = flight - 1
  /\ UNCHANGED <<cut, nodes, counter>>
Done == \A i \in DOMAIN threads : threads[i].pc = "gone"       \* what the scope waits for
Next == \/ \E i \in DOMAIN threads : Take(i) \/ Alloc(i) \/ Store(i) \/ Split(i) \/ Exit(i)
        \/ (Done /\ UNCHANGED vars)      \* anything else without a step is a deadlock
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------------
RECURSIVE Built(_)
Built(n) ==
  LET x == nodes[n]
  IN IF x = <<>> THEN <<"missing">>
     ELSE IF x[1] >= 0 THEN <<x[3], x[4]>>
     ELSE <<x[3], x[4], Built(x[2]), Built(x[2] + 1)>>
(* C13: whatever the interleaving, the same tree up to node numbers. C02: it is a proper one *)
Same == Done => Built(0) = Ideal(0, NP)
NoGaps == Done => /\ \A n \in 0..(counter - 1) : nodes[n] # <<>>
                  /\ \A n \in DOMAIN nodes : n >= counter => nodes[n] = <<>>
ChildrenLater == \A n \in DOMAIN nodes : (nodes[n] # <<>> /\ nodes[n][1] < 0) => nodes[n][2] > n
(* Tasks under way never share a node or an index *)
Pending == {<<i, j>> : i \in DOMAIN threads, j \in 1..NP}
Open == UNION {{<<threads[i].stack[j], i, j>> : j \in 1..Len(threads[i].stack)} \cup
               (IF threads[i].item = <<>> THEN {} ELSE {<<threads[i].item, i, 0>>}) : i \in DOMAIN threads}
Apart == \A p, q \in Open : p # q => (p[1][2] <= q[1][1] \/ q[1][2] <= p[1][1]) /\ p[1][3] # q[1][3]
Flight == flight = Cardinality({i \in DOMAIN threads : threads[i].pc # "gone"})
Ends == <>Done
================================================================================
