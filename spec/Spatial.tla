--------------------------------- MODULE Spatial -------------------------------
(* The spatial SAH builder as the code runs it: work items over a shared array of    *)
(* references with room for split ones behind each item's range. Primitives are       *)
(* intervals on a line (one axis of the real thing). Every choice that the cost model *)
(* makes in the code (split position, object order, leaf or not, how the free room is *)
(* divided) is nondeterministic here, so what holds here does not depend on costs or  *)
(* on rounding. Pending items may run in any order: tasks run in parallel.            *)
EXTENDS Tree
CONSTANTS NP,      \* number of primitives
          W,       \* the line: 0..W
          Room,    \* additional references allowed
          Leaf,    \* configured leaf size
          Bug      \* "none" or the name of a deliberate mistake, to see the properties fail

VARIABLES prims,   \* primitive -> <<lo, hi>>
          refs,    \* the shared reference array: <<id, lo, hi>>
          pend,    \* work items [node, b, e, se, d]
          nodes,   \* node -> <<lo, hi, count, first>>
          nc, rc,  \* allocated nodes, stored leaf references
          idx      \* the index list
vars == <<prims, refs, pend, nodes, nc, rc, idx>>

Max == NP + Room
NoRef == <<-1, 0, 0>>
RLo(S) == SetMin({r[2] : r \in S})
RHi(S) == SetMax({r[3] : r \in S})
Of(R, b, e) == {R[i] : i \in (b + 1)..e}         \* ranges are 0-based, half open, as in the code
Intervals == {x \in (0..W) \X (0..W) : x[1] <= x[2]}

Init ==
  /\ prims \in [0..(NP - 1) -> Intervals]
  /\ \A i \in 1..(NP - 1) : prims[i - 1][1] <= prims[i][1]        \* their order does not matter
  /\ refs = [i \in 1..Max |-> IF i <= NP THEN <<i - 1, prims[i - 1][1], prims[i - 1][2]>> ELSE NoRef]
  /\ pend = {[node |-> 0, b |-> 0, e |-> NP, se |-> Max, d |-> 0]}
  /\ nodes = [n \in {0} |-> <<RLo(Of(refs, 0, NP)), RHi(Of(refs, 0, NP)), -1, -1>>]
  /\ nc = 1 /\ rc = 0
  /\ idx = [i \in 1..Max |-> -1]

Size(w) == w.e - w.b

MakeLeaf(w) ==
  /\ Size(w) <= Leaf
  /\ idx' = [i \in 1..Max |-> IF i > rc /\ i <= rc + Size(w) THEN refs[w.b + i - rc][1] ELSE idx[i]]
  /\ rc' = rc + Size(w)
  /\ nodes' = [nodes EXCEPT ![w.node] = <<@[1], @[2], Size(w), rc>>]
  /\ pend' = pend \ {w}
  /\ UNCHANGED <<prims, refs, nc>>

(* R: the array after partitioning; the right part is R[rb+1..re]; g: how much of the free room the left child gets *)
Children(w, R, rb, re, lbox, rbox, g) ==
  LET moved == [i \in 1..Max |->
                  IF Bug = "no-move" THEN R[i]
                  ELSE IF i > rb + g /\ i <= re + g THEN R[i - g] ELSE R[i]]
      l == [node |-> nc, b |-> w.b, e |-> rb, se |-> IF Bug = "shared-room" THEN w.se ELSE rb + g, d |-> w.d + 1]
      r == [node |-> nc + 1, b |-> rb + g, e |-> re + g, se |-> w.se, d |-> w.d + 1]
  IN /\ re + g <= Max
     /\ refs' = moved
     /\ pend' = (pend \ {w}) \cup {l, r}
     /\ nodes' = [n \in 0..(nc + 1) |->
                    IF n = w.node THEN <<nodes[n][1], nodes[n][2], -1, nc>>
                    ELSE IF n = nc THEN <<lbox[1], lbox[2], -1, -1>>
                    ELSE IF n = nc + 1 THEN <<rbox[1], rbox[2], -1, -1>>
                    ELSE nodes[n]]
     /\ nc' = nc + 2
     /\ UNCHANGED <<prims, rc, idx>>
Give(w, re) == 0..(w.se - re + (IF Bug = "too-much-room" THEN 1 ELSE 0))
BoxOf(S) == <<RLo(S), RHi(S)>>

(* Orders in which the references of an item may be when an object split cuts them *)
Orders(b, e) ==
  LET S == Of(refs, b, e)
      n == e - b
  IN {f \in [1..n -> S] : \A i, j \in 1..n : i < j => f[i] # f[j] /\ (f[i][2] + f[i][3]) <= (f[j][2] + f[j][3])}
     \cup {[i \in 1..n |-> refs[b + i]]}
ObjectSplit(w) ==
  /\ Size(w) >= 2
  /\ \E f \in Orders(w.b, w.e) : \E s \in (w.b + 1)..(w.e - 1) :
       LET R == [i \in 1..Max |-> IF i > w.b /\ i <= w.e THEN f[i - w.b] ELSE refs[i]]
       IN \E g \in Give(w, w.e) :
            Children(w, R, s, w.e, BoxOf(Of(R, w.b, s)), BoxOf(Of(R, s, w.e)), g)

(* What apply_spatial_split does, as a recursion over the straddling references *)
Swap(R, i, j) == [R EXCEPT ![i + 1] = R[j + 1], ![j + 1] = R[i + 1]]
RECURSIVE Partition(_, _)
Partition(st, pos) ==
  IF st.i >= st.rb THEN st
  ELSE LET x == st.R[st.i + 1]
       IN IF x[3] <= pos THEN Partition([st EXCEPT !.R = Swap(@, st.i, st.le), !.i = @ + 1, !.le = @ + 1], pos)
          ELSE IF x[2] >= pos THEN Partition([st EXCEPT !.rb = @ - 1, !.R = Swap(@, st.i, st.rb - 1)], pos)
          ELSE Partition([st EXCEPT !.i = @ + 1], pos)
RECURSIVE Straddle(_, _, _)
Straddle(st, pos, se) ==
  IF st.le >= st.rb THEN st
  ELSE LET x == st.R[st.le + 1]
       IN IF se - st.re > 0
          THEN Straddle([st EXCEPT !.R = [@ EXCEPT ![st.re + 1] = IF Bug = "drop-right" THEN <<x[1], x[3], x[3]>> ELSE <<x[1], pos, x[3]>>,
                                                   ![st.le + 1] = <<x[1], x[2], pos>>],
                                   !.re = @ + 1, !.le = @ + 1, !.lc = @ + 1, !.rcn = @ + 1], pos, se)
          ELSE IF st.lc < st.rcn THEN Straddle([st EXCEPT !.le = @ + 1, !.lc = @ + 1], pos, se)
          ELSE Straddle([st EXCEPT !.rb = @ - 1, !.R = Swap(@, st.rb - 1, st.le), !.rcn = @ + 1], pos, se)
SpatialSplit(w) ==
  /\ Size(w) >= 2 /\ w.se - w.e > 0
  /\ \E pos \in (nodes[w.node][1] + 1)..(nodes[w.node][2] - 1) :
       LET p == Partition([R |-> refs, i |-> w.b, le |-> w.b, rb |-> w.e], pos)
           s == Straddle([R |-> p.R, le |-> p.le, rb |-> p.rb, re |-> w.e, lc |-> p.le - w.b, rcn |-> w.e - p.rb], pos, w.se)
           le == IF s.lc = 0 THEN s.le + s.rcn \div 2
                 ELSE IF s.rcn = 0 THEN w.b + s.lc \div 2
                 ELSE s.le
       IN \E g \in Give(w, s.re) :
            Children(w, s.R, le, s.re, BoxOf(Of(s.R, w.b, le)), BoxOf(Of(s.R, le, s.re)), g)

Next == \E w \in pend : MakeLeaf(w) \/ ObjectSplit(w) \/ SpatialSplit(w)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Final == pend = {}
(* No two pending items can touch the same references: what makes parallel tasks independent *)
Disjoint ==
  /\ \A w \in pend : 0 <= w.b /\ w.b < w.e /\ w.e <= w.se /\ w.se <= Max
  /\ \A v, w \in pend : v # w => (v.se <= w.b \/ w.se <= v.b) /\ v.node # w.node
(* An item's references are real ones *)
Filled == \A w \in pend : \A i \in (w.b + 1)..w.e : refs[i] # NoRef
(* Not more than there is room for: nodes and leaf references *)
Fits == rc <= Max /\ nc <= 2 * Max + 1
(* No primitive is referenced twice by one item *)
Once == \A w \in pend : Cardinality({refs[i][1] : i \in (w.b + 1)..w.e}) = Size(w)

(* C03: every point of every primitive is in a pending item or leaf that holds it, within the bounds of all ancestors *)
RECURSIVE Inside(_, _)
ParentNode(n) == CHOOSE p \in DOMAIN nodes : nodes[p][3] < 0 /\ nodes[p][4] >= 0 /\ (n = nodes[p][4] \/ n = nodes[p][4] + 1)
Inside(n, x) == 2 * nodes[n][1] <= x /\ x <= 2 * nodes[n][2] /\ (n = 0 \/ Inside(ParentNode(n), x))
LeafNodes == {n \in DOMAIN nodes : nodes[n][3] >= 0}
Held(p, x) ==
  \/ \E w \in pend : \E i \in (w.b + 1)..w.e : refs[i][1] = p /\ 2 * refs[i][2] <= x /\ x <= 2 * refs[i][3] /\ Inside(w.node, x)
  \/ \E n \in LeafNodes : (\E i \in 1..nodes[n][3] : idx[nodes[n][4] + i] = p) /\ Inside(n, x)
Covers == \A p \in DOMAIN prims : \A x \in (2 * prims[p][1])..(2 * prims[p][2]) : Held(p, x)

(* C01, C02, C17 of the finished tree *)
T == [i \in 1..nc |-> <<nodes[i - 1][1], 0, 0, nodes[i - 1][2], 0, 0, nodes[i - 1][3], nodes[i - 1][4]>>]
Proper == Final =>
  /\ WellFormed(T, rc)
  /\ {idx[i] : i \in 1..rc} = DOMAIN prims
  /\ \A i \in 1..nc : T[i][7] <= Leaf
(* Splitting ends: every split makes both parts smaller or uses up room *)
Ends == \A w \in pend : w.d <= NP + Room
================================================================================
