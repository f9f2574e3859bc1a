---------------------------------- MODULE Tower --------------------------------
(* Hand-made trees that are too large to be written down: leaves in a row along x;    *)
(* leaf i holds entries fat * i .. fat * i + fat - 1 and spans i..i+1 (0..1 along y   *)
(* and z), every node has the box of what is below it, however deep the tree is.      *)
(* Rays run along the row or across it, so what they meet is an interval of leaves.   *)
(* There are n entries. Results are runs <<first, last, step>>.                       *)
(* Built trees are over n triangles in a row (recorded by their places in the row).   *)
(* A ray is <<axis, twice its x, sign, maximum distance or -1>>; its x is odd.         *)
EXTENDS Integers, Sequences

None == <<0, -1>>
IsNone(v) == v[2] < v[1]
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

(* The leaves a ray meets; behind: those behind it as well; far: those beyond its maximum, too *)
Meets(n, r, behind, far) ==
  LET s == r[2]
      t == IF r[4] >= 0 /\ ~far THEN 2 * r[4] ELSE 4 * n + 2 * (IF s < 0 THEN -s ELSE s)
      at == (s - 1) \div 2                       \* the leaf it starts in or passes through
  IN IF r[1] = 1 THEN (IF (r[3] > 0 \/ behind) /\ at \in 0..(n - 1) THEN <<at, at>> ELSE None)
     ELSE IF r[3] > 0
     THEN <<IF behind THEN 0 ELSE MaxI(0, at), MinI(n - 1, (s + t - 1) \div 2)>>
     ELSE <<MaxI(0, (s - t - 1) \div 2), IF behind THEN n - 1 ELSE MinI(n - 1, at)>>

(* The entries of leaves v *)
Held(v, fat) == IF IsNone(v) THEN None ELSE <<fat * v[1], fat * v[2] + fat - 1>>
(* v within the union of the intervals S, of which there are few *)
RECURSIVE Within4(_, _)
Within4(v, S) ==
  IsNone(v) \/ \E a \in S : a[1] <= v[1] /\ v[1] <= a[2] /\ Within4(<<a[2] + 1, v[2]>>, S)
Dense(R) == {<<R[i][1], R[i][2]>> : i \in {j \in DOMAIN R : R[j][3] = 1}}
(* The interval v within the runs R, and a run w within the union of the intervals S *)
InRuns(v, R) ==
  \/ Within4(v, Dense(R))
  \/ \A x \in v[1]..v[2] : \E i \in DOMAIN R : R[i][1] <= x /\ x <= R[i][2] /\ (x - R[i][1]) % R[i][3] = 0
RunIn(w, S) ==
  \/ Within4(<<w[1], w[2]>>, S)
  \/ \A k \in 0..((w[2] - w[1]) \div w[3]) : \E a \in S : a[1] <= w[1] + k * w[3] /\ w[1] + k * w[3] <= a[2]
Cut(v, n) == <<v[1], MinI(v[2], n - 1)>>

TowerLanes(e) == {e.rays[l] : l \in DOMAIN e.rays}
(* Every offered entry is one, and none more than once *)
TowerProtocol(e) ==
  \A i \in DOMAIN e.ys :
    LET y == e.ys[i]
    IN y.rep = 0 /\ y.again = 0 /\ y.over = 0
       /\ \A k \in DOMAIN y.runs : RunIn(y.runs[k], {<<0, (IF y.obj = 1 THEN e.plen ELSE e.n) - 1>>})
       /\ \A j \in DOMAIN e.ys : e.ys[j].obj = y.obj => e.ys[j].runs = y.runs
TowerComplete(e) ==
  \A i \in DOMAIN e.ys :
    LET y == e.ys[i]
    IN \A r \in TowerLanes(e) :
         InRuns(Cut(Held(Meets(e.n \div e.fat, r, FALSE, FALSE), e.fat), IF y.obj = 1 THEN e.plen ELSE e.n), y.runs)
(* The bounds of leaves are their own in the binary tree only *)
TowerSkips(e) ==
  (e.on = "b" /\ e.n > e.fat /\ e.leaf <= 1 /\ e.n > 2) =>
    LET S == {Held(Meets(e.n \div e.fat, r, FALSE, e.kind = "r"), e.fat) : r \in TowerLanes(e)}
    IN \A i \in DOMAIN e.ys : \A k \in DOMAIN e.ys[i].runs : RunIn(e.ys[i].runs[k], S)

(* The leaves hold their numbers modulo e.mod, but none holds e.gap *)
TowerValid(e) ==
  \A i \in DOMAIN e.cnts :
    e.r[i] = (IF e.cnts[i] <= e.mod /\ ~(e.gap \in 0..(e.cnts[i] - 1) /\ e.mod > 1) THEN 1 ELSE 0)
TowerWide(e) ==
  /\ e.leaves = << <<0, e.refs - 1, 1>> >> /\ e.again = 0 /\ e.twice = 0 /\ e.empty = 0 /\ e.bad = 0
  /\ e.ids = << <<0, e.n - 1, 1>> >> /\ e.rep = e.rep0 /\ e.refs = e.n + e.rep /\ e.kept = 1

(* Built trees *)
TowerReferences(e) == e.ids = << <<0, e.n - 1, 1>> >> /\ (e.b # "spatial" => e.rep = 0)
TowerProper(e) ==
  /\ e.reached = << <<0, e.nodes - 1, 1>> >> /\ e.twice = 0 /\ e.back = 0
  /\ e.at = << <<0, e.refs - 1, 1>> >> /\ e.again = 0 /\ e.empty = 0 /\ e.bad = 0
TowerLeaves(e) == e.most <= (IF e.b = "locb" THEN (IF e.n <= 2 THEN 2 ELSE 1) ELSE MaxI(1, e.leaf))
(* The same tree as another one: same boxes, same leaves, children in the same order *)
TowerSame(e, f) == (e.b = f.b /\ e.n = f.n /\ e.leaf = f.leaf /\ e.mul = f.mul) => e.sig = f.sig
================================================================================
