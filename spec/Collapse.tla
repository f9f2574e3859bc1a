--------------------------------- MODULE Collapse ------------------------------
(* The conversion to 4-wide nodes, for every binary tree with up to NL leaves (C10). *)
EXTENDS Shapes
CONSTANTS NL, Bug
VARIABLES T, V
Init == \E n \in 1..NL : \E f \in Forms(n) :
          /\ T = Layout(f, [k \in 1..n |-> 1 + (k % 2)])
          /\ V = IF Bug = "lost-leaf" THEN [Collapse(T) EXCEPT ![1][3] = IF @[1] >= 0 THEN NoSlot ELSE @] ELSE Collapse(T)
Next == UNCHANGED <<T, V>>
Spec == Init /\ [][Next]_<<T, V>>
Kept == Preserves(T, V)
(* A slot stands for a grandchild of the node its parent slot stands for, or a child that is a leaf: *)
(* so no wide node is more than half as deep, rounded up, as the binary one                          *)
RECURSIVE DB(_), DW(_)
DB(i) == IF Leaf(T, i) THEN 0 ELSE 1 + (LET a == DB(T[i + 1][2]) b == DB(T[i + 1][2] + 1) IN IF a > b THEN a ELSE b)
DW(m) == LET d(k) == IF V[m + 1][k] # NoSlot /\ V[m + 1][k][1] < 0 THEN 1 + DW(V[m + 1][k][2]) ELSE 1
             M == {d(k) : k \in 1..4}
         IN CHOOSE x \in M : \A y \in M : y <= x
Shallow == 2 * DW(0) <= DB(0) + 2
================================================================================
