---------------------------------- MODULE Wide ---------------------------------
(* 4-wide trees: a sequence of nodes, each a sequence of four slots                  *)
(* <<min x, y, z, max x, y, z, count, child>>. A slot with count >= 0 is a leaf,     *)
(* else with child >= 0 it refers to another wide node, else it is unused.           *)
EXTENDS Tree

SlotLeaf(s) == s[7] >= 0
SlotNode(s) == s[7] < 0 /\ s[8] >= 0

WideWalkable(W, m) ==
  /\ \A i \in 1..Len(W) : \A k \in 1..4 :
       LET s == W[i][k]
       IN /\ SlotLeaf(s) => s[8] >= 0 /\ s[8] + s[7] <= m
          /\ SlotNode(s) => s[8] >= i /\ s[8] < Len(W)
  /\ LET R == {x \in (1..Len(W)) \X (1..4) : SlotNode(W[x[1]][x[2]])}
     IN Cardinality({W[x[1]][x[2]][8] : x \in R}) = Cardinality(R)

(* All leaf slots reachable from wide node i as <<first, count, slot, bounds on the way>> *)
RECURSIVE WLeaves(_, _, _)
WSlot(W, s, b) ==
  IF SlotLeaf(s) THEN <<<<s[8], s[7], Meet(b, s), s>>>>
  ELSE IF SlotNode(s) THEN WLeaves(W, s[8], Meet(b, s))
  ELSE <<>>
WLeaves(W, i, b) ==
  LET n == W[i + 1] IN WSlot(W, n[1], b) \o WSlot(W, n[2], b) \o WSlot(W, n[3], b) \o WSlot(W, n[4], b)
AllWLeaves(W) == IF Len(W) = 0 THEN <<>> ELSE WLeaves(W, 0, FullBox)

(* All wide nodes reached by walking, with repetitions *)
RECURSIVE WVisit(_, _)
WVisitSlot(W, s) == IF SlotNode(s) THEN WVisit(W, s[8]) ELSE <<>>
WVisit(W, i) ==
  LET n == W[i + 1]
  IN <<i>> \o WVisitSlot(W, n[1]) \o WVisitSlot(W, n[2]) \o WVisitSlot(W, n[3]) \o WVisitSlot(W, n[4])

(* The set of leaf starts below: identifies a binary node (leaf ranges are disjoint and non-empty) *)
RECURSIVE StartsB(_, _)
StartsB(T, i) == IF IsLeaf(N(T, i)) THEN {N(T, i)[8]} ELSE StartsB(T, N(T, i)[8]) \cup StartsB(T, N(T, i)[8] + 1)
StartsW(W, s) ==
  IF SlotLeaf(s) THEN {s[8]} ELSE {l[1] : l \in Range(WSlot(W, s, FullBox))}

(* Bounds of the slot that stands for binary node i with parent p: at least what the bounds of   *)
(* both have in common, at most what they cover together.                                        *)
SlotBounds(T, s, i, p) ==
  /\ Contains(s, Meet(N(T, i), N(T, p)))
  /\ Contains(Join(N(T, i), N(T, p)), s)

ParentOf(T, i) == IF i = 0 THEN 0 ELSE CHOOSE p \in 0..(Len(T) - 1) : ~IsLeaf(N(T, p)) /\ N(T, p)[8] \in {i - 1, i}

(* Every binary leaf is exactly one reachable slot with the same range; cheap for trees of any size. *)
WideLeavesKept(T, W) ==
  LET B == AllLeaves(T)
      L == AllWLeaves(W)
      rb == {<<l[1], l[2]>> : l \in Range(B)}
      rw == {<<l[1], l[2]>> : l \in Range(L)}
  IN rb = rw /\ Len(B) = Len(L)

(* The complete property *)
WidePreserves(T, W) ==
  LET par == TLCEval([i \in 0..(Len(T) - 1) |-> ParentOf(T, i)])
      st == TLCEval([i \in 0..(Len(T) - 1) |-> StartsB(T, i)])
      vis == WVisit(W, 0)
  IN /\ WideLeavesKept(T, W)
     /\ Cardinality(Range(vis)) = Len(vis)
     /\ \A w \in Range(vis) : \A k \in 1..4 :
          LET s == W[w + 1][k]
          IN /\ SlotLeaf(s) =>
                  \E i \in DOMAIN st : IsLeaf(N(T, i)) /\ N(T, i)[8] = s[8] /\ N(T, i)[7] = s[7] /\ SlotBounds(T, s, i, par[i])
             /\ SlotNode(s) =>
                  LET f == StartsW(W, s)
                  IN f = {} \/ \E i \in DOMAIN st : st[i] = f /\ SlotBounds(T, s, i, par[i])

(* Every slot on the way encloses the boxes P of the primitives below it *)
RECURSIVE WHull(_, _, _, _)
WHull(W, idx, P, s) ==
  IF SlotLeaf(s) THEN LET b == JoinIds(idx, P, s[8], s[7]) IN IF Contains(s, b) THEN b ELSE <<>>
  ELSE IF SlotNode(s) THEN
    LET n == W[s[8] + 1]
        h == TLCEval([k \in 1..4 |-> WHull(W, idx, P, n[k])])
    IN IF \E k \in 1..4 : h[k] = <<>> THEN <<>>
       ELSE LET b == Join(Join(h[1], h[2]), Join(h[3], h[4])) IN IF b = EmptyBox \/ Contains(s, b) THEN b ELSE <<>>
  ELSE EmptyBox
WideEncloses(W, idx, P) == Len(W) > 0 => \A k \in 1..4 : WHull(W, idx, P, W[1][k]) # <<>>
================================================================================
