---------------------------------- MODULE Refit --------------------------------
(* Refitting, one node per step, from the last node to the first: any tree with up to NL *)
(* leaves whose children come after their parent, any sequence of new boxes (intervals    *)
(* here: the axes do not depend on each other).                                           *)
EXTENDS Shapes
CONSTANTS NL, W, Times, Bug
VARIABLES T, box, old, at, times
vars == <<T, box, old, at, times>>
Intervals == {x \in (0..W) \X (0..W) : x[1] <= x[2]}
Set == 0..(Cardinality(Below(T, 0)) - 1)
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
Hull(B) == <<Lo({b[1] : b \in B}), Hi({b[2] : b \in B})>>
Init ==
  /\ \E n \in 1..NL : \E f \in Forms(n) : T = Layout(f, [k \in 1..n |-> 1 + ((k + n) % 2)])
  /\ old \in {[i \in 0..(Len(T) - 1) |-> <<0, W>>], [i \in 0..(Len(T) - 1) |-> <<1, 1>>]}
  /\ box \in [Set -> Intervals]
  /\ at = Len(T) /\ times = 1
Fit(i) ==
  /\ old' = [old EXCEPT ![i] =
       IF Leaf(T, i) THEN Hull({box[p] : p \in Below(T, i)} \cup (IF Bug = "grow" THEN {@} ELSE {}))
       ELSE LET c == T[i + 1][2] IN Hull({old[c], old[c + 1]})]
Step ==
  /\ at > 0
  /\ at' = at - 1
  /\ Fit(IF Bug = "forward" THEN Len(T) - at ELSE at - 1)
  /\ UNCHANGED <<T, box, times>>
Again ==
  /\ at = 0 /\ times < Times
  /\ times' = times + 1 /\ at' = Len(T)
  /\ box' \in [Set -> {<<0, 0>>, <<W, W>>, <<0, W>>}]
  /\ UNCHANGED <<T, old>>
Next == Step \/ Again
Spec == Init /\ [][Next]_vars
(* C11: afterwards every node's bounds are those of the boxes below it, whatever they were before *)
Exact == at = 0 => \A i \in 0..(Len(T) - 1) : old[i] = Hull({box[p] : p \in Below(T, i)})
================================================================================
