---------------------------------- MODULE Binned -------------------------------
(* The binned SAH builder: work items over a shared index list. Which bin a centre falls    *)
(* into, which axis and which bin border the cost model prefers, and whether it prefers a    *)
(* leaf, are free choices here; equal centres fall into the same bin. Any pending item may   *)
(* run next: tasks run in parallel. Boxes are intervals on a line.                           *)
EXTENDS Tree
CONSTANTS NP, W, C,     \* primitives with boxes in 0..W and one of C centres
          Bins, Leaf, MaxDepth, Bug
VARIABLES cen, box, idx, pend, nodes, nc
vars == <<cen, box, idx, pend, nodes, nc>>
Ids == 0..(NP - 1)
Intervals == {x \in (0..W) \X (0..W) : x[1] <= x[2]}
Least(S) == SetMin({box[p][1] : p \in S})
Most(S) == SetMax({box[p][2] : p \in S})
Around(S) == IF S = {} THEN <<W + 1, -1>> ELSE <<Least(S), Most(S)>>
Of(I, b, e) == {I[i] : i \in (b + 1)..e}

Init ==
  /\ cen \in [Ids -> 1..C]
  /\ \A p, q \in Ids : p < q => cen[p] <= cen[q]          \* their order does not matter
  /\ box \in [Ids -> Intervals]
  /\ idx = [i \in 1..NP |-> i - 1]
  /\ nodes = [n \in {0} |-> <<Least(Ids), Most(Ids), -1, -1>>]
  /\ pend = {[node |-> 0, b |-> 0, e |-> NP, d |-> 0]}
  /\ nc = 1
Size(w) == w.e - w.b
MakeLeaf(w) ==
  /\ nodes' = [nodes EXCEPT ![w.node] = <<@[1], @[2], Size(w), w.b>>]
  /\ pend' = pend \ {w}
  /\ UNCHANGED <<cen, box, idx, nc>>
(* utils::partition *)
RECURSIVE Part(_, _, _, _, _)
Part(I, i, k, e, S) ==
  IF i = e THEN <<I, k>>
  ELSE IF I[i + 1] \in S THEN Part([I EXCEPT ![i + 1] = I[k + 1], ![k + 1] = I[i + 1]], i + 1, k + 1, e, S)
  ELSE Part(I, i + 1, k, e, S)
Children(w, I, m, lb, rb) ==
  LET l == nc r == nc + 1 IN
  /\ idx' = I
  /\ nodes' = [n \in 0..r |-> IF n = w.node THEN <<nodes[n][1], nodes[n][2], -1, l>>
                              ELSE IF n = l THEN <<lb[1], lb[2], -1, -1>>
                              ELSE IF n = r THEN <<rb[1], rb[2], -1, -1>> ELSE nodes[n]]
  /\ pend' = (pend \ {w}) \cup {[node |-> l, b |-> w.b, e |-> m, d |-> w.d + 1], [node |-> r, b |-> m, e |-> w.e, d |-> w.d + 1]}
  /\ nc' = nc + 2
  /\ UNCHANGED <<cen, box>>
Run(w) ==
  IF Size(w) <= 1 \/ w.d >= MaxDepth THEN MakeLeaf(w)
  ELSE
  \/ Size(w) <= Leaf /\ MakeLeaf(w)                      \* splitting costs more
  \/ \E bin \in [{cen[p] : p \in Of(idx, w.b, w.e)} -> 0..(Bins - 1)] : \E at \in 1..Bins :
       LET S == {p \in Of(idx, w.b, w.e) : bin[cen[p]] < at}
           pt == Part(idx, w.b, w.b, w.e, S)
           m0 == pt[2]
           half == (m0 = w.b \/ m0 = w.e) /\ Size(w) > Leaf /\ Bug # "no-half"
           m == IF half THEN w.b + Size(w) \div 2 ELSE m0
           L == IF half /\ Bug # "bin-boxes" THEN Of(pt[1], w.b, m) ELSE S
           R == IF half /\ Bug # "bin-boxes" THEN Of(pt[1], m, w.e) ELSE Of(idx, w.b, w.e) \ S
       IN IF w.b < m /\ m < w.e THEN Children(w, pt[1], m, Around(L), Around(R))
          ELSE MakeLeaf(w)
Next == \E w \in pend : Run(w)
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Final == pend = {}
(* C13: pending items own disjoint parts of the index list, and their nodes *)
Apart == \A v, w \in pend : v # w => (v.e <= w.b \/ w.e <= v.b) /\ v.node # w.node
(* C03: also while it is being built, bounds enclose what is below *)
Enclosed == \A w \in pend : \A p \in Of(idx, w.b, w.e) : nodes[w.node][1] <= box[p][1] /\ box[p][2] <= nodes[w.node][2]
RECURSIVE At(_, _)
At(n, d) == IF nodes[n][3] >= 0 THEN {<<n, d>>} ELSE At(nodes[n][4], d + 1) \cup At(nodes[n][4] + 1, d + 1)
RECURSIVE Ids_(_)
Ids_(n) == IF nodes[n][3] >= 0 THEN Of(idx, nodes[n][4], nodes[n][4] + nodes[n][3])
           ELSE Ids_(nodes[n][4]) \cup Ids_(nodes[n][4] + 1)
T == [i \in 1..nc |-> <<nodes[i - 1][1], 0, 0, nodes[i - 1][2], 0, 0, nodes[i - 1][3], nodes[i - 1][4]>>]
Proper == Final =>
  /\ {idx[i] : i \in 1..NP} = Ids                                         \* C01
  /\ WellFormed(T, NP) /\ nc <= 2 * NP - 1                                \* C02
  /\ \A n \in DOMAIN nodes : \A p \in Ids_(n) : nodes[n][1] <= box[p][1] /\ box[p][2] <= nodes[n][2]   \* C03
  /\ \A x \in At(0, 0) : nodes[x[1]][3] <= Leaf \/ x[2] = MaxDepth         \* C17
================================================================================
