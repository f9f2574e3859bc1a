---------------------------------- MODULE Tree ---------------------------------
(* Binary trees as the library stores them: a sequence of nodes                     *)
(* <<min x, y, z, max x, y, z, count, first>> and a sequence of primitive ids.       *)
(* Node numbers are 0-based like in the code; a leaf has count >= 0 and owns ids    *)
(* first .. first+count-1, an interior node's children are nodes first and first+1. *)
EXTENDS Geom

N(T, i) == T[i + 1]
IsLeaf(n) == n[7] >= 0
LeafIds(idx, n) == {idx[n[8] + j] : j \in 1..n[7]}

(* Every node but the root has exactly one parent, children come after their parent in adjacent *)
(* pairs, and the leaf ranges partition the index list of length m.                             *)
WellFormed(T, m) ==
  LET inner == {i \in 0..(Len(T) - 1) : ~IsLeaf(N(T, i))}
      leaves == {i \in 0..(Len(T) - 1) : IsLeaf(N(T, i))}
      kids == {N(T, i)[8] : i \in inner} \cup {N(T, i)[8] + 1 : i \in inner}
      starts == {N(T, i)[8] : i \in leaves}
      ends == {N(T, i)[8] + N(T, i)[7] : i \in leaves}
  IN /\ Len(T) >= 1
     /\ \A i \in inner : N(T, i)[8] > i /\ N(T, i)[8] + 1 < Len(T)
     /\ Len(T) - 1 = 2 * Cardinality(inner)
     /\ kids = 1..(Len(T) - 1)
     /\ \A i \in leaves : N(T, i)[7] >= 1 /\ N(T, i)[8] >= 0
     /\ Cardinality(starts) = Cardinality(leaves)
     (* intervals with distinct starts form a partition iff every end is the next start *)
     /\ starts \cup {m} = ends \cup {0}

(* Can the structure be walked at all? Guards the recursive operators below against broken trees. *)
Walkable(T, m) ==
  /\ LET inner == {i \in 1..Len(T) : ~IsLeaf(T[i])}
     IN Cardinality({T[i][8] : i \in inner} \cup {T[i][8] + 1 : i \in inner}) = 2 * Cardinality(inner)
  /\ \A i \in 1..Len(T) : IF IsLeaf(T[i]) THEN T[i][8] >= 0 /\ T[i][8] + T[i][7] <= m
                          ELSE T[i][8] >= i /\ T[i][8] + 1 < Len(T)

(* The box of everything referenced below a node, or <<>> when some node below does not enclose it. *)
RECURSIVE JoinIds(_, _, _, _)
JoinIds(idx, P, f, n) ==
  IF n = 0 THEN EmptyBox
  ELSE IF n = 1 THEN P[idx[f + 1] + 1]
  ELSE LET h == n \div 2 IN Join(JoinIds(idx, P, f, h), JoinIds(idx, P, f + h, n - h))

RECURSIVE Hull(_, _, _, _)
Hull(T, idx, P, i) ==
  LET n == N(T, i)
  IN IF IsLeaf(n)
     THEN LET b == JoinIds(idx, P, n[8], n[7]) IN IF Contains(n, b) THEN b ELSE <<>>
     ELSE LET l == Hull(T, idx, P, n[8])
          IN IF l = <<>> THEN <<>>
             ELSE LET r == Hull(T, idx, P, n[8] + 1)
                  IN IF r = <<>> THEN <<>>
                     ELSE LET b == Join(l, r) IN IF Contains(n, b) THEN b ELSE <<>>

(* Every node's bounds enclose the boxes P of all primitives referenced below it. *)
Encloses(T, idx, P) == Len(T) > 0 => Hull(T, idx, P, 0) # <<>>

(* Leaves reachable from node i, each with the common part of all bounds on the way to it. *)
RECURSIVE Leaves(_, _, _)
Leaves(T, i, b) ==
  LET n == N(T, i)
      x == Meet(b, n)
  IN IF IsLeaf(n) THEN <<<<n[8], n[7], x, i>>>>
     ELSE Leaves(T, n[8], x) \o Leaves(T, n[8] + 1, x)
FullBox == <<-2147483647, -2147483647, -2147483647, 2147483647, 2147483647, 2147483647>>
AllLeaves(T) == IF Len(T) = 0 THEN <<>> ELSE Leaves(T, 0, FullBox)

(* The ids of all leaf entries that can be reached from the root *)
RECURSIVE Entries(_, _)
Entries(idx, L) ==
  IF L = <<>> THEN <<>>
  ELSE IF Len(L) = 1 THEN SubSeq(idx, L[1][1] + 1, L[1][1] + L[1][2])
  ELSE LET h == Len(L) \div 2 IN Entries(idx, SubSeq(L, 1, h)) \o Entries(idx, SubSeq(L, h + 1, Len(L)))

Range(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Bag(s) == [x \in Range(s) |-> Count(s, x)]
SameBag(s, t) == Len(s) = Len(t) /\ Range(s) = Range(t) /\ (Cardinality(Range(s)) = Len(s) \/ Bag(s) = Bag(t))

(* The same tree up to the numbering of nodes and leaf ranges *)
RECURSIVE SameFrom(_, _, _, _, _, _)
SameFrom(T, idx, i, U, jdx, j) ==
  LET a == N(T, i)
      b == N(U, j)
  IN /\ Box6(a) = Box6(b)
     /\ IsLeaf(a) = IsLeaf(b)
     /\ IF IsLeaf(a)
        THEN /\ a[7] = b[7]
             /\ SameBag(SubSeq(idx, a[8] + 1, a[8] + a[7]), SubSeq(jdx, b[8] + 1, b[8] + b[7]))
        ELSE /\ SameFrom(T, idx, a[8], U, jdx, b[8])
             /\ SameFrom(T, idx, a[8] + 1, U, jdx, b[8] + 1)
SameTree(T, idx, U, jdx) == Len(T) = Len(U) /\ Len(idx) = Len(jdx) /\ (Len(T) > 0 => SameFrom(T, idx, 0, U, jdx, 0))

(* Same topology, leaf ranges: everything but the bounds *)
SameShape(T, U) == Len(T) = Len(U) /\ \A i \in DOMAIN T : T[i][7] = U[i][7] /\ T[i][8] = U[i][8]

(* Largest leaf that is not at the maximum depth *)
RECURSIVE LeafLimit(_, _, _, _, _)
LeafLimit(T, i, d, lim, deep) ==
  LET n == N(T, i)
  IN IF IsLeaf(n) THEN n[7] <= lim \/ d >= deep
     ELSE LeafLimit(T, n[8], d + 1, lim, deep) /\ LeafLimit(T, n[8] + 1, d + 1, lim, deep)

RECURSIVE Depth(_, _)
Depth(T, i) == IF IsLeaf(N(T, i)) THEN 1 ELSE 1 + Max2(Depth(T, N(T, i)[8]), Depth(T, N(T, i)[8] + 1))
================================================================================
