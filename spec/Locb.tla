---------------------------------- MODULE Locb ---------------------------------
(* Locally ordered clustering: passes over a row of clusters, each merging the pairs that   *)
(* are each other's nearest neighbour among the clusters up to Radius places away. How far  *)
(* clusters are apart is free, in every pass again; ties are broken the way the code does.  *)
(* The nodes are written from the back of one array while the row is read from another.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP, Radius, K, Bug
VARIABLES a, b,            \* the two node arrays: <<count, first, set of leaves below>>
          begin, end, prev,
          passes
vars == <<a, b, begin, end, prev, passes>>

NC == 2 * NP - 1
Blank == <<-1, 0, {}>>
Init ==
  /\ a = [n \in 0..(NC - 1) |-> IF n >= NC - NP THEN <<1, n - (NC - NP), {n - (NC - NP)}>> ELSE Blank]
  /\ b = [n \in 0..(NC - 1) |-> Blank]
  /\ begin = NC - NP /\ end = NC /\ prev = NC /\ passes = 0

Pairs == {p \in (begin..(end - 1)) \X (begin..(end - 1)) : p[1] < p[2] /\ p[2] - p[1] <= Radius}
Dist(d, i, j) == IF i < j THEN d[<<i, j>>] ELSE d[<<j, i>>]
(* The nearest neighbour; with equal distances the one with the lower number *)
Nearest(d, i) ==
  LET N == {j \in begin..(end - 1) : j # i /\ j - i <= Radius /\ i - j <= Radius}
      best == {j \in N : \A k \in N : Dist(d, i, j) <= Dist(d, i, k)}
  IN IF Bug = "next-tie" THEN IF i + 1 \in best THEN i + 1 ELSE CHOOSE j \in best : \A k \in best : j <= k
     ELSE CHOOSE j \in best : \A k \in best : j <= k

Pass ==
  /\ end - begin > 1
  /\ \E d \in [Pairs -> 1..K] :
       LET row == begin..(end - 1)
           nb == [i \in row |-> Nearest(d, i)]
           mutual(i) == nb[nb[i]] = i
           F == {i \in row : i < nb[i] /\ mutual(i)}                          \* keeps the place of the pair
           sum == [i \in row |-> Cardinality({j \in F : j <= i})]             \* prefix sum
           merged == Cardinality(F)
           kids == end - 2 * merged
           start == end - (2 * merged + (end - begin - merged))
           at(i) == start + i - begin - sum[i]
           out == [n \in 0..(NC - 1) |->
                     IF n >= end /\ n < prev THEN (IF Bug = "no-copy" THEN b[n] ELSE a[n])
                     ELSE IF \E i \in F : n = kids + 2 * (sum[i] - 1) THEN a[CHOOSE i \in F : n = kids + 2 * (sum[i] - 1)]
                     ELSE IF \E i \in F : n = kids + 2 * (sum[i] - 1) + 1 THEN a[nb[CHOOSE i \in F : n = kids + 2 * (sum[i] - 1) + 1]]
                     ELSE IF \E i \in F : n = at(nb[i])
                          THEN LET i == CHOOSE i \in F : n = at(nb[i])
                               IN <<-1, kids + 2 * (sum[i] - 1), a[i][3] \cup a[nb[i]][3]>>
                     ELSE IF \E i \in row : ~mutual(i) /\ n = at(i) THEN a[CHOOSE i \in row : ~mutual(i) /\ n = at(i)]
                     ELSE b[n]]
       IN /\ a' = out /\ b' = a            \* swapped
          /\ begin' = start /\ end' = kids /\ prev' = end
          /\ passes' = passes + 1
Next == Pass
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Row == [n \in begin..(end - 1) |-> a[n]]
(* Each cluster is in the row once, and the row gets shorter *)
Whole == /\ UNION {a[n][3] : n \in begin..(end - 1)} = 0..(NP - 1)
         /\ \A m, n \in begin..(end - 1) : m # n => a[m][3] \cap a[n][3] = {}
Shrinks == passes <= NP - 1
InBounds == begin >= 0 /\ end <= prev /\ prev <= NC /\ begin < end
(* What is behind the row is final: every node behind it is as it was when the row passed it *)
RECURSIVE Tidy(_)
Tidy(n) == IF a[n][1] >= 0 THEN a[n][3] = {a[n][2]}
           ELSE LET l == a[n][2]
                IN l >= end /\ l + 1 < NC /\ l > n /\ a[n][3] = a[l][3] \cup a[l + 1][3] /\ a[l][3] \cap a[l + 1][3] = {} /\ Tidy(l) /\ Tidy(l + 1)
Forest == \A n \in begin..(end - 1) : Tidy(n)
Finished == end - begin = 1 => begin = 0 /\ Cardinality({n \in 0..(NC - 1) : a[n][1] >= 0}) = NP
================================================================================
