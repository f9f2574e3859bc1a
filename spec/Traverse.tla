--------------------------------- MODULE Traverse ------------------------------
(* Traversal of binary and 4-wide trees by one ray or by several at once, with a consumer  *)
(* that may lower the maximum distances between two offers. What the geometry decides -    *)
(* which boxes are met, how far away, which primitives are hit where - is any assignment    *)
(* that fits together, and so is the order in which the children of a node are visited.     *)
EXTENDS Shapes
CONSTANTS NL,        \* trees with up to NL leaves
          D,         \* distances 0..D
          Rays,      \* number of rays: 1, or more for a packet
          Wide4,     \* traverse the 4-wide form?
          Bug

VARIABLES T, V,      \* the tree and its 4-wide form
          hit,       \* ray -> entry -> distance, D + 1: not hit
          extra,     \* nodes whose box is met although nothing below is hit
          mode,      \* what the consumer does: "free", "closest", "any"
          t,         \* ray -> current maximum distance
          stack,     \* nodes still to visit; wide: wide nodes
          cur,       \* wide: the node whose slots are being visited, and those left. Binary: the leaf being offered
          e,         \* entries of the current leaf already offered
          out,       \* the entries offered, in order
          found,     \* "any": was there a successful test
          step
vars == <<T, V, hit, extra, mode, t, stack, cur, e, out, found, step>>

R == 1..Rays
None == D + 1
Ends == 0..D
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Entries == 0..(Cardinality(Below(T, 0)) - 1)

(* The distance at which ray r enters the box of node n; None: it misses it *)
Near(r, n) ==
  LET d == {hit[r][p] : p \in Below(T, n)}
  IN IF Min(d) <= D THEN Min(d) ELSE IF n \in extra THEN 0 ELSE None
Met(n) ==
  IF Rays = 1 /\ ~Wide4 THEN Near(1, n) # None                     \* no regard to the maximum distance
  ELSE IF Bug = "first-ray" THEN Near(1, n) < t[1]
  ELSE IF Bug = "shortest" THEN \E r \in R : Near(r, n) # None /\ \A q \in R : Near(r, n) < t[q]
  ELSE \E r \in R : Near(r, n) # None /\ Near(r, n) < t[r]

Init ==
  /\ \E n \in 1..NL : \E f \in Forms(n) : \E two \in 0..n :
       T = Layout(f, [k \in 1..n |-> IF k = two THEN 2 ELSE 1])
  /\ V = IF Wide4 THEN Collapse(T) ELSE <<>>
  /\ hit \in [R -> [Entries -> 0..(D + 1)]]
  /\ extra \in SUBSET {n \in 0..(Len(T) - 1) : \A r \in R : \A p \in Below(T, n) : hit[r][p] > D}
  /\ mode \in {"free", "closest", "any"}
  /\ t = [r \in R |-> D + 1]
  /\ IF Wide4 THEN stack = <<>> /\ cur = [m |-> 0, left |-> IF \A n \in 0..(Len(T) - 1) : Near(1, n) >= 0
                                                            THEN {k \in 1..4 : V[1][k] # NoSlot /\ Met(V[1][k][3])} ELSE {},
                                          slot |-> 0]
     ELSE stack = <<0>> /\ cur = -1
  /\ e = 0 /\ out = <<>> /\ found = FALSE /\ step = 0

Idle == IF Wide4 THEN stack = <<>> /\ cur.left = {} /\ cur.slot = 0 ELSE stack = <<>> /\ cur = -1
Stopped == mode = "any" /\ found
Done == Idle \/ Stopped

(* The consumer's turn after entry p was offered *)
Consume(p) ==
  CASE mode = "closest" -> t' = [r \in R |-> Min({t[r], hit[r][p]})] /\ UNCHANGED found
    [] mode = "any" -> found' = (\E r \in R : hit[r][p] < t[r]) /\ UNCHANGED t
    [] OTHER -> /\ UNCHANGED found
                /\ \E r \in R : \E x \in 0..t[r] : t' = [t EXCEPT ![r] = x]

OfferFrom(count, first) ==
  /\ e < count
  /\ out' = Append(out, first + e)
  /\ e' = e + 1
  /\ Consume(first + e)

(* ---- binary *)
Pop == /\ cur = -1 /\ stack # <<>>
       /\ LET n == stack[Len(stack)]
              rest == SubSeq(stack, 1, Len(stack) - 1)
          IN IF Leaf(T, n) THEN cur' = n /\ stack' = rest
             ELSE /\ cur' = -1
                  /\ LET l == T[n + 1][2]
                         in == {c \in {l, l + 1} : Met(c)}
                     IN IF Bug = "far-only" /\ Cardinality(in) = 2 THEN stack' = Append(rest, l)
                        ELSE IF in = {} THEN stack' = rest
                        ELSE IF Cardinality(in) = 1 THEN stack' = Append(rest, CHOOSE c \in in : TRUE)
                        ELSE stack' \in {rest \o <<l, l + 1>>, rest \o <<l + 1, l>>}
       /\ UNCHANGED <<e, out, t, found>>
Offer == /\ cur >= 0 /\ OfferFrom(T[cur + 1][1], T[cur + 1][2]) /\ UNCHANGED <<stack, cur>>
LeafDone == /\ cur >= 0 /\ e = T[cur + 1][1] /\ e' = 0 /\ cur' = -1
            /\ UNCHANGED <<stack, out, t, found>>

(* ---- 4-wide: which slots are met is decided once, when a node is entered *)
WEnter == /\ cur.left = {} /\ cur.slot = 0 /\ stack # <<>>
          /\ LET m == stack[Len(stack)]
             IN /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                /\ cur' = [m |-> m, left |-> {k \in 1..4 : V[m + 1][k] # NoSlot /\ Met(V[m + 1][k][3])}, slot |-> 0]
          /\ UNCHANGED <<e, out, t, found>>
WSlot == /\ cur.slot = 0
         /\ \E k \in cur.left :
              LET s == V[cur.m + 1][k]
              IN IF s[1] < 0 THEN stack' = Append(stack, s[2]) /\ cur' = [cur EXCEPT !.left = @ \ {k}]
                 ELSE stack' = stack /\ cur' = [cur EXCEPT !.left = @ \ {k}, !.slot = k]
         /\ UNCHANGED <<e, out, t, found>>
WOffer == /\ cur.slot # 0
          /\ LET s == V[cur.m + 1][cur.slot] IN OfferFrom(s[1], s[2])
          /\ UNCHANGED <<stack, cur>>
WLeafDone == /\ cur.slot # 0 /\ e = V[cur.m + 1][cur.slot][1]
             /\ e' = (IF Bug = "stale-entry" THEN e ELSE 0)
             /\ cur' = [cur EXCEPT !.slot = 0]
             /\ UNCHANGED <<stack, out, t, found>>

Next == /\ ~Done
        /\ step' = step + 1
        /\ IF Wide4 THEN WEnter \/ WSlot \/ WOffer \/ WLeafDone ELSE Pop \/ Offer \/ LeafDone
        /\ UNCHANGED <<T, V, hit, extra, mode>>
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Offered == {out[i] : i \in 1..Len(out)}
(* C05, C06: what some ray hits before its maximum distance at the end was offered *)
Complete == Idle => \A p \in Entries : (\E r \in R : hit[r][p] < t[r]) => p \in Offered
RootOnly == ~Wide4 /\ Leaf(T, 0)
(* C07 *)
Closest == Idle /\ mode = "closest" => \A r \in R : t[r] = Min({hit[r][p] : p \in Entries})
Any == Done /\ mode = "any" => (found <=> \E r \in R : \E p \in Entries : hit[r][p] <= D)
(* C08 *)
AtMostOnce == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
(* C08: it ends - every node and every entry is visited at most once, plus leaving leaves *)
Terminates == step <= 3 * Len(T) + Cardinality(Entries) + 2
(* C09: what is still to be visited is bounded by the tree, not by a constant *)
StackFits == Len(stack) <= (IF Wide4 THEN 3 * Len(V) + 1 ELSE (Len(T) + 1) \div 2 + 1)
(* C21: nothing from leaves whose box no ray meets, but for the root of a binary tree *)
Skips == \A i \in 1..Len(out) :
           LET n == CHOOSE k \in 0..(Len(T) - 1) : Leaf(T, k) /\ out[i] \in Below(T, k)
           IN RootOnly \/ \E r \in R : Near(r, n) # None
================================================================================
