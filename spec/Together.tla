--------------------------------- MODULE Together ------------------------------
(* Several traversals of one binary tree, under way at the same time, each with a stack of *)
(* which the first Cap entries are stored in the traversal itself and the others apart, as  *)
(* no depth is guaranteed. A step of any of them may come next, they may begin at any time, *)
(* and may be abandoned at any time. Whatever the others do, each offers what it offers     *)
(* alone. The mistakes: one store for the entries apart, or a store that is emptied when    *)
(* some traversal begins.                                                                   *)
EXTENDS Shapes
CONSTANTS NL, W, Cap, Bug

VARIABLES T,         \* the tree
          met,       \* traversal -> nodes whose boxes it meets
          inline,    \* traversal -> position -> node
          apart,     \* store -> sequence of nodes
          ptr,       \* traversal -> number of entries, -1: not begun
          out,       \* traversal -> leaves offered
          gone       \* traversals that were abandoned
vars == <<T, met, inline, apart, ptr, out, gone>>

Ts == 1..W
All == 0..(Len(T) - 1)
Store(w) == IF Bug \in {"one-store", "emptied"} THEN 1 ELSE w

(* What a traversal offers alone *)
RECURSIVE Alone(_, _)
Alone(w, n) ==
  IF Leaf(T, n) THEN <<n>>
  ELSE LET l == T[n + 1][2]
       IN (IF l \in met[w] THEN Alone(w, l) ELSE <<>>) \o (IF l + 1 \in met[w] THEN Alone(w, l + 1) ELSE <<>>)

Init ==
  /\ \E n \in 1..NL : \E f \in Forms(n) : T = Layout(f, [k \in 1..n |-> 1])
  /\ met \in [Ts -> {S \in SUBSET All : 0 \in S /\ \A n \in S : n = 0 \/ \E m \in S : ~Leaf(T, m) /\ n - T[m + 1][2] \in {0, 1}}]
  /\ inline = [w \in Ts |-> [i \in 1..Cap |-> 0]]
  /\ apart = [w \in Ts |-> <<>>]
  /\ ptr = [w \in Ts |-> -1]
  /\ out = [w \in Ts |-> <<>>]
  /\ gone = {}

Begin(w) ==
  /\ ptr[w] = -1 /\ w \notin gone
  /\ ptr' = [ptr EXCEPT ![w] = 1]
  /\ inline' = [inline EXCEPT ![w][1] = 0]
  /\ apart' = IF Bug = "emptied" THEN [apart EXCEPT ![Store(w)] = <<>>] ELSE apart
  /\ UNCHANGED <<T, met, out, gone>>

Top(w) == IF ptr[w] <= Cap THEN inline[w][ptr[w]]
          ELSE LET s == apart[Store(w)] IN IF ptr[w] - Cap \in DOMAIN s THEN s[ptr[w] - Cap] ELSE -1

(* Entries to be pushed on top of p others *)
Put(w, p, S) ==
  /\ ptr' = [ptr EXCEPT ![w] = p + Len(S)]
  /\ inline' = [inline EXCEPT ![w] = [i \in 1..Cap |-> IF i \in (p + 1)..(p + Len(S)) THEN S[i - p] ELSE @[i]]]
  /\ LET a == apart[Store(w)]
         new == {i \in (p + 1)..(p + Len(S)) : i > Cap}
         keep == IF new = {} THEN a ELSE SubSeq(a, 1, (CHOOSE i \in new : \A j \in new : i <= j) - Cap - 1)
     IN apart' = [apart EXCEPT ![Store(w)] = keep \o (IF new = {} THEN <<>> ELSE SubSeq(S, 1 + Len(S) - Cardinality(new), Len(S)))]

Visit(w) ==
  /\ ptr[w] > 0 /\ w \notin gone
  /\ LET n == Top(w)
     IN IF n = -1 THEN out' = [out EXCEPT ![w] = Append(@, -1)] /\ gone' = gone \cup {w} /\ UNCHANGED <<ptr, inline, apart>>
        ELSE /\ UNCHANGED gone
             /\ IF Leaf(T, n) THEN out' = [out EXCEPT ![w] = Append(@, n)] /\ Put(w, ptr[w] - 1, <<>>)
                ELSE /\ UNCHANGED out
                     /\ LET l == T[n + 1][2] IN
                        Put(w, ptr[w] - 1, (IF l + 1 \in met[w] THEN <<l + 1>> ELSE <<>>) \o (IF l \in met[w] THEN <<l>> ELSE <<>>))
  /\ UNCHANGED <<T, met>>

Abandon(w) == ptr[w] > 0 /\ w \notin gone /\ gone' = gone \cup {w} /\ UNCHANGED <<T, met, inline, apart, ptr, out>>

Over == \A w \in Ts : ptr[w] = 0 \/ w \in gone
Next == (\E w \in Ts : Begin(w) \/ Visit(w) \/ Abandon(w)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
(* What has been offered is the beginning of what is offered alone, and all of it in the end *)
Alike == \A w \in Ts : ptr[w] >= 0 => IsPrefix(out[w], Alone(w, 0)) /\ (ptr[w] = 0 => out[w] = Alone(w, 0))
TreeKept == [][T' = T]_vars
================================================================================
