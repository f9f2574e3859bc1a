---------------------------------- MODULE Shapes -------------------------------
(* All binary trees with a given number of leaves, and how they are laid out as nodes.   *)
(* A node is <<count, first>>: count >= 0 for a leaf that owns entries first.., else -1  *)
(* and the children are nodes first and first + 1. Node numbers are 0-based.             *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Forms(_)
Forms(n) == IF n = 1 THEN {<<>>}
            ELSE UNION {{<<l, r>> : l \in Forms(k), r \in Forms(n - k)} : k \in 1..(n - 1)}
RECURSIVE LeavesOf(_)
LeavesOf(f) == IF f = <<>> THEN 1 ELSE LeavesOf(f[1]) + LeavesOf(f[2])

(* Sizes: entries of the k-th leaf. st: [T, k, e] with T the nodes, k leaves and e entries so far *)
RECURSIVE Place(_, _, _, _)
Place(st, i, f, sizes) ==
  IF f = <<>>
  THEN [T |-> [st.T EXCEPT ![i + 1] = <<sizes[st.k + 1], st.e>>], k |-> st.k + 1, e |-> st.e + sizes[st.k + 1]]
  ELSE LET c == Len(st.T)
           a == [st EXCEPT !.T = Append(Append([@ EXCEPT ![i + 1] = <<-1, c>>], <<0, 0>>), <<0, 0>>)]
       IN Place(Place(a, c, f[1], sizes), c + 1, f[2], sizes)
Layout(f, sizes) == Place([T |-> <<<<0, 0>>>>, k |-> 0, e |-> 0], 0, f, sizes).T

Leaf(T, i) == T[i + 1][1] >= 0
RECURSIVE Below(_, _)
Below(T, i) ==                  \* entries below a node
  IF Leaf(T, i) THEN T[i + 1][2]..(T[i + 1][2] + T[i + 1][1] - 1)
  ELSE Below(T, T[i + 1][2]) \cup Below(T, T[i + 1][2] + 1)

(* The 4-wide form: a sequence of wide nodes, each four slots <<count, child, binary node>>,  *)
(* <<-1, -1, -1>> when unused. A slot's binary node is the one whose bounds the slot carries  *)
(* at least in part. This is merge_nodes: every wide node takes the grandchildren of one      *)
(* binary node, and a child that is a leaf keeps a slot of its own.                           *)
NoSlot == <<-1, -1, -1>>
RECURSIVE Wide(_, _, _, _)
Slots(T, i) ==
  IF Leaf(T, i) THEN <<i, -1, -1, -1>>
  ELSE LET l == T[i + 1][2]
           Two(c) == IF Leaf(T, c) THEN <<c, -1>> ELSE <<T[c + 1][2], T[c + 1][2] + 1>>
       IN Two(l) \o Two(l + 1)
Wide(T, W, m, i) ==
  LET s == Slots(T, i)
      F[k \in 0..4] ==
        IF k = 0 THEN W
        ELSE LET V == F[k - 1]
                 b == s[k]
             IN IF b < 0 THEN [V EXCEPT ![m + 1][k] = NoSlot]
                ELSE IF Leaf(T, b) THEN [V EXCEPT ![m + 1][k] = <<T[b + 1][1], T[b + 1][2], b>>]
                ELSE LET c == Len(V)
                     IN Wide(T, Append([V EXCEPT ![m + 1][k] = <<-1, c, b>>], <<NoSlot, NoSlot, NoSlot, NoSlot>>), c, b)
  IN F[4]
Collapse(T) == Wide(T, <<<<NoSlot, NoSlot, NoSlot, NoSlot>>>>, 0, 0)

(* What a conversion has to preserve: the same leaves, each in one reachable slot *)
RECURSIVE WideLeaves(_, _)
WideLeaves(V, m) ==
  LET one(k) == LET s == V[m + 1][k]
                IN IF s = NoSlot THEN <<>>
                   ELSE IF s[1] >= 0 THEN <<<<s[1], s[2]>>>>
                   ELSE WideLeaves(V, s[2])
  IN one(1) \o one(2) \o one(3) \o one(4)
BinaryLeaves(T) == {T[i] : i \in {j \in 1..Len(T) : T[j][1] >= 0}}
Preserves(T, V) ==
  LET w == WideLeaves(V, 0)
  IN /\ {w[i] : i \in 1..Len(w)} = BinaryLeaves(T)
     /\ Len(w) = Cardinality(BinaryLeaves(T))
     /\ Len(V) <= Len(T)           \* fits the pool the code allocates
================================================================================
