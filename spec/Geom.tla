---------------------------------- MODULE Geom ---------------------------------
(* Exact geometry on the integer grid: which primitives a ray hits, and how far. *)
EXTENDS Num

Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Vtx(tri, i) == <<tri[3 * i + 1], tri[3 * i + 2], tri[3 * i + 3]>>

(* Determinants of the ray/triangle system, sign normalised: the ray is parallel  *)
(* iff a = 0, else it meets the triangle's plane at s.u/a, s.v/a, distance s.t/a. *)
Solve(tri, o, d) ==
  LET e1 == Sub3(Vtx(tri, 1), Vtx(tri, 0))
      e2 == Sub3(Vtx(tri, 2), Vtx(tri, 0))
      h == Cross(d, e2)
      a == Dot(e1, h)
      s == Sub3(o, Vtx(tri, 0))
      q == Cross(s, e1)
      g == IF a < 0 THEN -1 ELSE 1
  IN [a |-> g * a, u |-> g * Dot(s, h), v |-> g * Dot(d, q), t |-> g * Dot(e2, q)]

(* A definite hit: inside or on the edges at vertex 0 (which floats decide exactly) and away  *)
(* from the third edge and from distance 0. sh scales distances: t >= 1/512 in world units.   *)
IsHit(s, sh) ==
  /\ s.a > 0
  /\ s.u >= 0 /\ s.v >= 0
  /\ s.a - s.u - s.v >= 1 + s.a \div 100000
  /\ s.t > 0
  /\ s.t >= (s.a * Pow2(sh)) \div 512

(* A definite miss: parallel by far, clearly outside, or behind *)
IsMiss(s, sh) ==
  \/ s.a = 0
  \/ s.u < 0 \/ s.v < 0
  \/ s.u + s.v > s.a + 1 + s.a \div 100000
  \/ s.t <= 0

HitKey(s, sh) == RatKey(s.t, s.a, sh)

(* Minimum distance of a ray, given as [numerator, denominator] or left at the default *)
TMin == 953267991           \* key of 1e-4, the default minimum distance
TmKey(K, t) == IF Len(t) = 2 THEN RatKey(t[1], t[2], IF K.flt = 1 THEN 0 ELSE K.sh) ELSE TMin

--------------------------------------------------------------------------------
(* Boxes are 6 keys: min x, y, z, max x, y, z *)
Contains(b, x) == /\ b[1] <= x[1] /\ b[2] <= x[2] /\ b[3] <= x[3]
                  /\ b[4] >= x[4] /\ b[5] >= x[5] /\ b[6] >= x[6]
ContainsPt(b, p) == /\ b[1] <= p[1] /\ b[2] <= p[2] /\ b[3] <= p[3]
                    /\ b[4] >= p[1] /\ b[5] >= p[2] /\ b[6] >= p[3]
Join(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Min2(a[3], b[3]),
                Max2(a[4], b[4]), Max2(a[5], b[5]), Max2(a[6], b[6])>>
Meet(a, b) == <<Max2(a[1], b[1]), Max2(a[2], b[2]), Max2(a[3], b[3]),
                Min2(a[4], b[4]), Min2(a[5], b[5]), Min2(a[6], b[6])>>
EmptyBox == <<2147483647, 2147483647, 2147483647, -2147483647, -2147483647, -2147483647>>
Box6(n) == <<n[1], n[2], n[3], n[4], n[5], n[6]>>

(* Key of a coordinate of a scene; fl = 1: coordinates are keys already *)
CoordKey(v, off, sh, fl) == IF fl = 1 THEN v ELSE Key(v + off * Pow2(sh), sh)

TriBox(t, off, sh, fl, pad) ==
  <<CoordKey(Min2(t[1], Min2(t[4], t[7])) - pad, off[1], sh, fl),
    CoordKey(Min2(t[2], Min2(t[5], t[8])) - pad, off[2], sh, fl),
    CoordKey(Min2(t[3], Min2(t[6], t[9])) - pad, off[3], sh, fl),
    CoordKey(Max2(t[1], Max2(t[4], t[7])) + pad, off[1], sh, fl),
    CoordKey(Max2(t[2], Max2(t[5], t[8])) + pad, off[2], sh, fl),
    CoordKey(Max2(t[3], Max2(t[6], t[9])) + pad, off[3], sh, fl)>>

VtxKey(t, i, off, sh, fl) ==
  <<CoordKey(t[3 * i + 1], off[1], sh, fl), CoordKey(t[3 * i + 2], off[2], sh, fl),
    CoordKey(t[3 * i + 3], off[3], sh, fl)>>

--------------------------------------------------------------------------------
(* Does the line of a grid ray clearly miss a box of keys? The box is widened to whole grid     *)
(* units and one more. Only for |direction| <= 8 and coordinates below some thousands.          *)
Lo(b, off, sh, i) == FixFloor(b[i], sh) - off[i] * Pow2(sh) - 1
Hi(b, off, sh, i) == FixCeil(b[i + 3], sh) - off[i] * Pow2(sh) + 1
Clamp(x) == IF x > 100000000 THEN 100000000 ELSE IF x < -100000000 THEN -100000000 ELSE x

(* Interval of distances inside slab i as <<lo num, hi num, den>>; den = 0: never inside, -1: always *)
Slab(b, off, sh, o, d, i) ==
  LET lo == Clamp(Lo(b, off, sh, i)) - o[i]
      hi == Clamp(Hi(b, off, sh, i)) - o[i]
  IN IF d[i] = 0 THEN (IF lo > 0 \/ hi < 0 THEN <<0, 0, 0>> ELSE <<0, 0, -1>>)
     ELSE IF d[i] > 0 THEN <<lo, hi, d[i]>> ELSE <<-hi, -lo, -d[i]>>

(* Rays running within a unit of the plane of a face are left out: no answer is promised.        *)
(* behind: boxes behind the origin count as missed; tkey >= 0: so do boxes clearly beyond it *)
ClearMiss(b, off, sh, o, d, behind, tkey) ==
  LET s == TLCEval([i \in 1..3 |-> Slab(b, off, sh, o, d, i)])
      A == {i \in 1..3 : s[i][3] > 0}
      grazes == \E i \in 1..3 : d[i] = 0 /\ \E f \in {Lo(b, off, sh, i), Hi(b, off, sh, i)} : Abs(Clamp(f) - o[i]) <= 2
  IN ~grazes /\
     \/ \E i \in 1..3 : s[i][3] = 0
     \/ \E i, j \in A : RatCmp(s[i][1], s[i][3], s[j][2], s[j][3]) > 0
     \/ behind /\ \E i \in A : s[i][2] < 0
     \/ tkey >= 0 /\ \E i \in A : s[i][1] > 0 /\ RatKey(s[i][1], s[i][3], sh) > tkey + 1024

--------------------------------------------------------------------------------
(* Covering a segment by boxes, in fixed point with 14 fractional bits           *)
F == 14
FixBox(b) == <<FixFloor(b[1], F), FixFloor(b[2], F), FixFloor(b[3], F), FixCeil(b[4], F), FixCeil(b[5], F), FixCeil(b[6], F)>>

(* Part of the segment a..b inside the box as rationals <<lo, den, hi, den>> within 0..1, or <<>> *)
ClipAxis(a, b, lo, hi) ==
  IF a = b THEN (IF lo <= a /\ a <= hi THEN <<0, 1, 1, 1>> ELSE <<>>)
  ELSE IF b > a THEN <<lo - a, b - a, hi - a, b - a>>
  ELSE <<a - hi, a - b, a - lo, a - b>>
RatMax(p, q) == IF RatCmp(p[1], p[2], q[1], q[2]) >= 0 THEN p ELSE q
RatMin(p, q) == IF RatCmp(p[1], p[2], q[1], q[2]) <= 0 THEN p ELSE q
ClipSeg(a, b, x) ==
  LET c == TLCEval([i \in 1..3 |-> ClipAxis(a[i], b[i], x[i], x[i + 3])])
  IN IF \E i \in 1..3 : c[i] = <<>> THEN <<>>
     ELSE LET lo == RatMax(RatMax(<<c[1][1], c[1][2]>>, <<c[2][1], c[2][2]>>), RatMax(<<c[3][1], c[3][2]>>, <<0, 1>>))
              hi == RatMin(RatMin(<<c[1][3], c[1][4]>>, <<c[2][3], c[2][4]>>), RatMin(<<c[3][3], c[3][4]>>, <<1, 1>>))
          IN IF RatCmp(lo[1], lo[2], hi[1], hi[2]) > 0 THEN <<>> ELSE <<lo[1], lo[2], hi[1], hi[2]>>

RECURSIVE CoverFrom(_, _)
CoverFrom(I, p) ==
  IF RatCmp(p[1], p[2], 1, 1) >= 0 THEN TRUE
  ELSE LET next == {i \in I : RatCmp(i[1], i[2], p[1], p[2]) <= 0 /\ RatCmp(i[3], i[4], p[1], p[2]) > 0}
       IN IF next = {} THEN FALSE
          ELSE LET best == CHOOSE i \in next : \A j \in next : RatCmp(i[3], i[4], j[3], j[4]) >= 0
               IN CoverFrom(I, <<best[3], best[4]>>)

(* Do the boxes X (fixed point) together cover the segment a..b (fixed point)? *)
Covered(a, b, X) ==
  IF a = b THEN \E x \in X : ClipSeg(a, b, x) # <<>>
  ELSE LET I == {ClipSeg(a, b, x) : x \in X} \ {<<>>}
           start == {i \in I : RatCmp(i[1], i[2], 0, 1) <= 0}
       IN start # {} /\ CoverFrom(I, <<0, 1>>)
================================================================================
