---------------------------------- MODULE Rules --------------------------------
(* What each operation of the library guarantees, as predicates over the operation's *)
(* recorded inputs and result. The trace specification uses them as guards of its    *)
(* actions, the design specifications as invariants of the algorithms' models.       *)
EXTENDS Wide

--------------------------------------------------------------------------------
(* Scenes *)
(* K: the case (scale, offset, encoding); tris: the triangles; n: how many of them; pad: box padding *)
Boxes(K, tris, n, pad) == TLCEval([i \in 1..n |-> TriBox(tris[i], K.off, K.sh, K.flt, pad)])

--------------------------------------------------------------------------------
(* Builds *)
Valid(e) == e.n > 0 /\ (e.bb = "none" \/ e.m = e.n)

(* C12: errors are exactly the invalid inputs' *)
BuildReport(e) ==
  LET ok == IF e.n = 0 THEN 0 ELSE IF e.bb # "none" /\ e.m # e.n THEN 1 ELSE 2
  IN IF e.via = "ffi"
     THEN IF ok = 2 THEN e.code = 0 /\ e.ok = 1 ELSE ok = 0 /\ e.code = 2 /\ e.ok = 0
     ELSE CASE ok = 0 -> e.ok = 0 /\ e.err = "noprims"
            [] ok = 1 -> e.ok = 0 /\ e.err = "inequal" /\ e.ea = e.m /\ e.ep = e.n
            [] OTHER -> e.ok = 1 /\ e.k = (IF e.b = "binned" THEN "binned" ELSE e.b)

(* C01 *)
References(e) ==
  Valid(e) =>
    /\ e.ok = 1
    /\ \A i \in DOMAIN e.idx : e.idx[i] \in 0..(e.n - 1)
    /\ Walkable(e.nodes, Len(e.idx))
    /\ LET R == Entries(e.idx, AllLeaves(e.nodes))
       IN /\ Range(R) = 0..(e.n - 1)
          /\ e.b # "spatial" => Len(R) = e.n

(* C02 *)
ProperTree(e) == e.ok = 1 => WellFormed(e.nodes, Len(e.idx)) /\ e.pc = Len(e.idx)

(* C03 *)
Fx(p) == <<FixFloor(p[1], F), FixFloor(p[2], F), FixFloor(p[3], F)>>
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2, (a[3] + b[3]) \div 2>>
Grow1(x) == <<x[1] - 1, x[2] - 1, x[3] - 1, x[4] + 1, x[5] + 1, x[6] + 1>>
(* Primitive i's edges and medians are covered by the bounds of leaves (and all ancestors) holding it *)
PrimCovered(K, t, B) ==
  LET X == {Grow1(FixBox(b)) : b \in B}
      a == Fx(VtxKey(t, 0, K.off, K.sh, K.flt))
      b == Fx(VtxKey(t, 1, K.off, K.sh, K.flt))
      c == Fx(VtxKey(t, 2, K.off, K.sh, K.flt))
      m == Mid(a, b)
      n == Mid(b, c)
  IN /\ Covered(a, b, X) /\ Covered(b, c, X) /\ Covered(c, a, X)
     /\ Covered(c, m, X) /\ Covered(a, n, X) /\ Covered(m, n, X)
SpatialCovers(K, tris, T, idx, ids) ==
  LET L == AllLeaves(T)
      at == [p \in ids |-> {L[i][3] : i \in {j \in DOMAIN L : \E q \in 1..L[j][2] : idx[L[j][1] + q] = p}}]
  IN \A p \in ids : PrimCovered(K, tris[p + 1], at[p])
(* Large trees: a sample of the primitives *)
SampleIds(n) == IF n <= 150 THEN 0..(n - 1) ELSE {i \in 0..(n - 1) : i % (n \div 24) = 7}
BoundsEnclose(K, tris, e) ==
  (e.ok = 1 /\ Walkable(e.nodes, Len(e.idx)) /\ \A i \in DOMAIN e.idx : e.idx[i] \in 0..(e.n - 1)) =>
    /\ IF e.b = "spatial" THEN SpatialCovers(K, tris, e.nodes, e.idx, SampleIds(e.n))
       ELSE Encloses(e.nodes, e.idx, Boxes(K, tris, e.n, e.pad))
    /\ e.bnd # <<>> => e.bnd = Box6(e.nodes[1])
(* The boxes a C caller omits are points at the centres; such trees promise nothing about extents *)
HasExtents(e) == ~(e.via = "ffi" /\ e.bb = "none" /\ e.b # "spatial")

(* C17 *)
LeafSizes(e) ==
  (e.ok = 1 /\ Walkable(e.nodes, Len(e.idx))) =>
    IF e.b = "locb"
    THEN \A i \in DOMAIN e.nodes : IsLeaf(e.nodes[i]) => e.nodes[i][7] = 1 \/ (i = 1 /\ e.nodes[i][7] <= 2)
    ELSE LeafLimit(e.nodes, 0, 1, Max2(1, e.leaf), 63)

--------------------------------------------------------------------------------
(* Refitting. old: the tree before; e: the event with the new state; P: the new boxes *)
Refitted(oldT, oldIdx, e, P) ==
  /\ e.code = 0
  /\ SameShape(oldT, e.nodes)
  /\ oldIdx = e.idx
  /\ Encloses(e.nodes, e.idx, P)
  /\ e.hasfresh = 1 => e.fresh = e.nodes

--------------------------------------------------------------------------------
(* Validation: C16 *)
Validated(e) ==
  Walkable(e.nodes, Len(e.idx)) =>
    LET R == Range(Entries(e.idx, AllLeaves(e.nodes)))
    IN e.r = (IF \A i \in 0..(e.cnt - 1) : i \in R THEN 1 ELSE 0)

--------------------------------------------------------------------------------
(* Queries *)
Lanes(e) == IF e.kind = "r" THEN {1} ELSE 1..4
ObjApi(e) == e.api \in {"obj", "sobj", "nobj", "tobj"}
NanRay(r) == r.nan # 0
AnyNan(e) == \E l \in Lanes(e) : NanRay(e.rays[l])

(* Definite hits of one lane as <<id, distance key>> *)
GridHits(K, tris, r) ==
  IF NanRay(r) THEN {}
  ELSE LET S == TLCEval([i \in 1..Len(tris) |-> Solve(tris[i], r.o, r.d)])
       IN {<<i - 1, HitKey(S[i], K.sh)>> : i \in {j \in 1..Len(tris) : IsHit(S[j], K.sh)}}
(* ... beyond the ray's minimum distance; packets have none of their own *)
LaneHits(K, tris, e, l) ==
  LET H == IF K.flt = 1 THEN {<<h[1], h[2]>> : h \in Range(e.must[l])} ELSE GridHits(K, tris, e.rays[l])
      tm == TmKey(K, e.rays[l].tm)
  IN IF tm = TMin THEN H ELSE {h \in H : h[2] > tm + 64}

Slack == 64
(* The shortest distance of a lane while the traversal ran; only a consumer that sets distances makes them longer *)
Shortest(e, l) == IF e.con = "set" THEN SetMin({e.t0[l], e.tf[l]} \cup {e.y[i][l + 1] : i \in DOMAIN e.y}) ELSE e.tf[l]
(* Hits that must be offered: within the lane's distance all the time, and known to the caller *)
Required(K, tris, e) ==
  LET lim == IF ObjApi(e) THEN e.plen ELSE Len(tris)
  IN UNION {{h[1] : h \in {g \in LaneHits(K, tris, e, l) : g[2] + Slack < Shortest(e, l) /\ g[1] < lim}} : l \in Lanes(e)}
Offered(e) == {e.y[i][1] : i \in DOMAIN e.y}

(* C05, C06, C09: nothing hit is left out, unless the consumer stopped *)
Complete(K, tris, e) == e.stopped = 0 => Required(K, tris, e) \subseteq Offered(e)

(* C07 *)
Closest(K, tris, e) ==
  \A l \in Lanes(e) :
    LET H == LaneHits(K, tris, e, l)
        lim == IF ObjApi(e) THEN e.plen ELSE Len(tris)
        B == {e.brute[l][i] : i \in 1..lim} \ {-1}
    IN /\ e.tf[l] \in B \cup {e.t0[l]}
       /\ \A h \in H : (h[1] < lim /\ e.brute[l][h[1] + 1] # -1) => e.tf[l] <= e.brute[l][h[1] + 1]
AnyHit(K, tris, e) ==
  LET lim == IF ObjApi(e) THEN e.plen ELSE Len(tris)
      some == \E l \in Lanes(e) : \E i \in 1..lim : e.brute[l][i] # -1
      sure == \E l \in Lanes(e) : \E h \in LaneHits(K, tris, e, l) : h[1] < lim /\ e.brute[l][h[1] + 1] # -1
  IN (e.stopped > 0 => some) /\ (sure => e.stopped > 0)

(* C21: the bounds of an offered entry are not clearly missed by all rays *)
RayMisses(K, e, l, b) ==
  LET r == e.rays[l]
      t == IF e.on = "b" /\ e.kind = "r" THEN -1 ELSE e.t0[l]
  IN ClearMiss(b, K.off, K.sh, r.o, r.d, e.on = "b", t)
AllMiss(K, e, b) == \A l \in Lanes(e) : RayMisses(K, e, l, b)
================================================================================
