---------------------------------- MODULE Calc ---------------------------------
(* The stateless part of the library: boxes, triangle tests, rays and packets,   *)
(* Morton codes. Each operator says what one recorded group of calls must return *)
(* for its inputs; all inputs lie on the integer grid, so results are exact.     *)
EXTENDS Geom

Dflt == 2012644575          \* key of 1e34, the default maximum distance and the bounds of empty boxes
NoHit == -2147483647
W(K, n, i) == n + K.off[i] * Pow2(K.sh)        \* a grid coordinate including the scene's offset
CK(K, n, i) == Key(W(K, n, i), K.sh)

--------------------------------------------------------------------------------
(* Boxes *)
BoxKeys(K, b) ==
  IF Len(b) # 6 THEN <<Dflt, Dflt, Dflt, -Dflt, -Dflt, -Dflt>>
  ELSE <<CK(K, b[1], 1), CK(K, b[2], 2), CK(K, b[3], 3), CK(K, b[4], 1), CK(K, b[5], 2), CK(K, b[6], 3)>>
PtKeys(K, p) == <<CK(K, p[1], 1), CK(K, p[2], 2), CK(K, p[3], 3)>>
With(b, x) == b \o <<x, -3 * x>>
RECURSIVE JoinAll(_, _)
JoinAll(b, s) == IF s = <<>> THEN b ELSE JoinAll(Join(b, Head(s)), Tail(s))
PtBox(p) == p \o p

(* The box encloses b, and each side lies within 1/512 of it *)
Tight(got, b) ==
  /\ Contains(got, b)
  /\ \A i \in 1..6 : Abs(FixFloor(got[i], 14) - FixFloor(b[i], 14)) <= 33
Corners(b) == {<<IF x = 1 THEN b[4] ELSE b[1], IF y = 1 THEN b[5] ELSE b[2], IF z = 1 THEN b[6] ELSE b[3]>>
               : x \in 0..1, y \in 0..1, z \in 0..1}
(* Image of a corner (grid units) under an integer matrix given column by column *)
Img(K, m, c, i) ==
  m[i] * W(K, c[1], 1) + m[4 + i] * W(K, c[2], 2) + m[8 + i] * W(K, c[3], 3) + m[12 + i] * Pow2(K.sh)
ImageBox(K, m, b) ==
  LET S(i) == {Img(K, m, c, i) : c \in Corners(b)}
  IN [i \in 1..6 |-> IF i <= 3 THEN Key(SetMin(S(i)), K.sh) ELSE Key(SetMax(S(i - 3)), K.sh)]

BoxOk(K, e) ==
  LET o == e.out
      real == Len(e.a) = 6
      a == BoxKeys(K, e.a)
      b == BoxKeys(K, e.b)
      p == PtKeys(K, e.p)
      L == [i \in DOMAIN e.list |-> BoxKeys(K, e.list[i])]
      ex == [i \in 1..3 |-> e.a[i + 3] - e.a[i]]
      far == SetMax({ex[i] : i \in 1..3})
      grown == [i \in 1..6 |-> CK(K, e.a[i] + (IF i <= 3 THEN -e.d ELSE e.d), ((i - 1) % 3) + 1)]
      area == ex[1] * ex[2] + ex[1] * ex[3] + ex[2] * ex[3]
      mid == [i \in 1..3 |-> Key(W(K, e.a[i], i) + W(K, e.a[i + 3], i), K.sh + 1)]
      lo == <<a[1], a[2], a[3]>>
      hi == <<a[4], a[5], a[6]>>
      empty == <<Dflt, Dflt, Dflt, -Dflt, -Dflt, -Dflt>>
  IN /\ o.union = With(Join(a, b), 0) /\ o.inter = With(Meet(a, b), 0)
     /\ o.grow = With(Join(a, PtBox(p)), 11)
     /\ o.growbb = With(Join(a, b), 11)
     /\ o.growbbs = With(JoinAll(a, L), 11)
     /\ o.shrink = With(Meet(a, b), 11)
     /\ o.contains = (IF \A i \in 1..3 : a[i] < p[i] /\ p[i] < a[i + 3] THEN 1 ELSE 0)
     /\ o.valid = (IF \A i \in 1..3 : a[i] <= a[i + 3] THEN 1 ELSE 0)
     /\ o.paabb = With(a, 11) /\ o.bounds = With(a, 11)
     /\ o.points = <<lo, hi>> /\ o.pair = <<lo, hi>> /\ o.index = <<lo, hi>>
     /\ Box6(o.frompair) = a
     /\ o.empty = With(empty, 0) /\ o.new = With(empty, 0) /\ o.def = With(empty, 0)
     /\ o.full = <<-Dflt, -Dflt, -Dflt, Dflt, Dflt, Dflt, 0, 0>>
     /\ Len(e.pts) > 0 => Tight(Box6(o.frompts), JoinAll(empty, [i \in DOMAIN e.pts |-> PtBox(PtKeys(K, e.pts[i]))]))
     /\ (\E i \in DOMAIN e.list : Len(e.list[i]) = 6) => Tight(Box6(o.ulist), JoinAll(empty, L))
     /\ real =>
          /\ o.offset = With(grown, 11) /\ o.woffset = With(grown, 11)
          /\ o.volume = Key(ex[1] * ex[2] * ex[3], 3 * K.sh)
          /\ o.harea = Key(area, 2 * K.sh)
          /\ o.area = Key(Max2(0, area), 2 * K.sh)
          /\ o.center = mid /\ o.pcenter = mid
          /\ o.lengths = [i \in 1..3 |-> Key(ex[i], K.sh)] /\ o.diag = o.lengths /\ o.ext = o.lengths
          /\ o.axis \in 0..2 /\ ex[o.axis + 1] = far /\ o.longest = Key(far, K.sh)
          /\ Len(o.corners) = 8
          /\ {o.corners[i] : i \in 1..8} = {PtKeys(K, c) : c \in Corners(e.a)}
          /\ Tight(Box6(o.fromarr), Join(PtBox(p), Join(PtBox(lo), PtBox(hi))))
          /\ Tight(Box6(o.macro), Join(PtBox(p), Join(PtBox(lo), PtBox(hi)))) /\ o.macro[7] = 0 /\ o.macro[8] = 0
          /\ o.tr # <<>> => /\ Tight(Box6(o.tr[1]), ImageBox(K, e.m, e.a))
                            /\ o.tr[2] = o.tr[1]

(* Boxes of arbitrary floats, given as keys: of any magnitude, infinite, or with sides that are no numbers *)
IsNan(k) == Abs(k) > Inf
Some(b) == \A i \in DOMAIN b : ~IsNan(b[i])
WildBoxOk(e) ==
  LET o == e.out
      a == e.a
      p == e.p
      nums == Some(a) /\ Some(e.b) /\ Some(p) /\ \A i \in DOMAIN e.list : Some(e.list[i])
      empty == <<Dflt, Dflt, Dflt, -Dflt, -Dflt, -Dflt>>
      around == Join(PtBox(p), Join(PtBox(<<a[1], a[2], a[3]>>), PtBox(<<a[4], a[5], a[6]>>)))
  IN /\ o.valid = (IF Some(a) /\ \A i \in 1..3 : a[i] <= a[i + 3] THEN 1 ELSE 0)
     /\ o.contains = (IF Some(a) /\ Some(p) /\ \A i \in 1..3 : a[i] < p[i] /\ p[i] < a[i + 3] THEN 1 ELSE 0)
     /\ o.paabb = With(a, 11) /\ o.bounds = With(a, 11)
     /\ o.points = <<<<a[1], a[2], a[3]>>, <<a[4], a[5], a[6]>>>> /\ o.pair = o.points /\ o.index = o.points
     /\ nums =>
          /\ o.union = With(Join(a, e.b), 0) /\ o.inter = With(Meet(a, e.b), 0)
          /\ o.grow = With(Join(a, PtBox(p)), 11)
          /\ o.growbb = With(Join(a, e.b), 11)
          /\ o.growbbs = With(JoinAll(a, e.list), 11)
          /\ o.shrink = With(Meet(a, e.b), 11)
          /\ Contains(Box6(o.fromarr), around) /\ Contains(Box6(o.macro), around)
          /\ Len(e.list) > 0 => Contains(Box6(o.ulist), JoinAll(empty, e.list))
     /\ (Len(e.pts) > 0 /\ \A i \in DOMAIN e.pts : Some(e.pts[i])) =>
          Contains(Box6(o.frompts), JoinAll(empty, [i \in DOMAIN e.pts |-> PtBox(e.pts[i])]))
     /\ o.lengths = o.ext /\ o.diag = o.ext
     /\ Some(o.ext) => o.axis \in 0..2 /\ o.longest = o.ext[o.axis + 1] /\ \A i \in 1..3 : o.ext[i] <= o.longest

--------------------------------------------------------------------------------
(* Triangle tests. x = <<reported hit, distance before, distance after, rest of the ray unchanged>> *)
TriAnswer(K, tri, r, tm, x) ==
  LET s == Solve(tri, r.o, r.d)
      h == HitKey(s, K.sh)
      nan == r.nan # 0
  IN /\ x[4] = 1
     /\ x[1] = 0 => x[3] = x[2]
     /\ nan => x[1] = 0
     /\ (~nan /\ IsHit(s, K.sh) /\ h > tm + 64 /\ h + 64 < x[2]) => x[1] = 1
     /\ (~nan /\ (IsMiss(s, K.sh) \/ h + 64 < tm \/ h > x[2] + 64)) => x[1] = 0
     /\ (~nan /\ x[1] = 1) => Abs(x[3] - h) <= 64 /\ x[3] < x[2]
TriOk(K, e) ==
  LET o == e.out
      R(i) == e.rays[((i - 1) % Len(e.rays)) + 1]
  IN /\ \A i \in DOMAIN o.single : TriAnswer(K, e.tri, R(i), TMin, o.single[i])
     /\ \A i \in 1..4 : TriAnswer(K, e.tri, R(i), TMin, o.lanes[i])
     /\ o.some = (IF \E i \in 1..4 : o.lanes[i][1] = 1 THEN 1 ELSE 0)
     /\ \A i \in DOMAIN o.tmin.single : TriAnswer(K, e.tri, R(i), TmKey(K, e.tms[i]), o.tmin.single[i])
     /\ \A i \in DOMAIN o.tmin.lanes : TriAnswer(K, e.tri, R(i), TmKey(K, e.tms[i]), o.tmin.lanes[i])

--------------------------------------------------------------------------------
(* Rays and packets *)
Bits(k) == IF k >= 0 THEN k ELSE (-2147483647 - 1) + (-k)
DirBits(d, nz) == [i \in 1..3 |-> IF d[i] = 0 /\ nz[i] # 0 THEN -2147483647 - 1 ELSE Bits(Key(d[i], 0))]
OrgBits(K, o) == [i \in 1..3 |-> Bits(CK(K, o[i], i))]
RayOk(K, e, i) ==
  LET o == e.out
      r == e.rays[((i - 1) % Len(e.rays)) + 1]
      D == o.direct[i]
      nan == r.nan # 0
      nd == Dot(e.nn, r.d)
      rd == [j \in 1..3 |-> r.d[j] - 2 * nd * e.nn[j]]
      reset == [D.fresh EXCEPT !.t = Dflt]
  IN /\ ~nan => D.fresh.o = OrgBits(K, r.o) /\ D.fresh.d = DirBits(r.d, r.nz)
     /\ D.fresh.t = Dflt /\ D.fresh.tm = TMin
     (* construction, conversion and resetting *)
     /\ D.conv = D.fresh
     /\ D.back = <<D.fresh.o, D.fresh.d>>
     /\ D.set = [D.fresh EXCEPT !.t = D.set.t, !.b = D.set.b]
     /\ D.set1.t = o.t1 /\ D.set1.o = D.fresh.o /\ D.set1.d = D.fresh.d /\ D.set1.tm = TMin
     /\ D.res = D.fresh
     /\ D.res2 = <<D.fresh.o, D.fresh.d, Dflt, 1048576000>>      \* key of 0.25
     /\ D.valid = (IF D.set.t < 1984247577 THEN 1 ELSE 0)
     /\ Len(r.t) = 2 => Abs(D.set.t - RatKey(r.t[1], r.t[2], K.sh)) <= 1
     /\ Len(r.t) = 0 => D.set.t = Dflt
     (* lanes *)
     /\ o.raw[i] = [o |-> D.fresh.o, d |-> D.fresh.d, t |-> D.set.t]
     /\ o.lanes[i] = D.set
     /\ o.after[i] = (IF i = (e.lane % 4) + 1 THEN D.set1 ELSE D.set)
     /\ o.reset[i] = D.fresh
     (* points and reflections *)
     /\ D.rf = D.rfn
     /\ ~nan =>
          /\ D.at = [j \in 1..3 |-> Key(W(K, r.o[j], j) + e.at * r.d[j] * Pow2(K.sh), K.sh)]
          /\ D.rfd = [j \in 1..3 |-> Key(rd[j], 0)]
          /\ D.rfo = [j \in 1..3 |-> Key(W(K, e.hp[j], j) * 1024 + rd[j] * e.eps * Pow2(K.sh), K.sh + 10)]
(* C23: rays, packets and boxes come back unchanged *)
RaysKept(e) ==
  /\ \A i \in 1..4 : e.out.direct[i].saved = e.out.direct[i].set
  /\ e.out.saved = e.out.lanes /\ e.out.saved4 = e.out.box4
RaysOk(K, e) == \A i \in 1..4 : RayOk(K, e, i)

--------------------------------------------------------------------------------
(* Does a ray meet a box? s: the ray's part inside each slab as distances <<lo, hi, den>> *)
BSlab(b, o, d, i) ==
  LET lo == b[i] - o[i]
      hi == b[i + 3] - o[i]
  IN IF d[i] > 0 THEN <<lo, hi, d[i]>> ELSE IF d[i] < 0 THEN <<-hi, -lo, -d[i]>>
     ELSE IF lo = 0 \/ hi = 0 THEN <<0, 0, -2>> ELSE IF lo > 0 \/ hi < 0 THEN <<0, 0, 0>> ELSE <<0, 0, -1>>
(* "in": passes through; "out": clearly does not; "edge": touches, or runs within the plane of a face *)
(* (either answer is right)                                                                           *)
Meets(b, r) ==
  LET s == TLCEval([i \in 1..3 |-> BSlab(b, r.o, r.d, i)])
      A == {i \in 1..3 : s[i][3] > 0}
      entry == CHOOSE x \in {<<s[i][1], s[i][3]>> : i \in A} : \A i \in A : RatCmp(x[1], x[2], s[i][1], s[i][3]) >= 0
      exit == CHOOSE x \in {<<s[i][2], s[i][3]>> : i \in A} : \A i \in A : RatCmp(x[1], x[2], s[i][2], s[i][3]) <= 0
      c == RatCmp(entry[1], entry[2], exit[1], exit[2])
  IN [entry |-> entry, exit |-> exit,
      is |-> IF \E i \in 1..3 : s[i][3] = -2 THEN "edge"
             ELSE IF \E i \in 1..3 : s[i][3] = 0 THEN "out"
             ELSE IF c > 0 \/ exit[1] < 0 THEN "out"
             ELSE IF c = 0 \/ exit[1] = 0 THEN "edge"
             ELSE "in"]
SignedRat(n, d, sh) == IF n >= 0 THEN RatKey(n, d, sh) ELSE -RatKey(-n, d, sh)
Near(x, y) == Abs(x - y) <= 64
(* Along such directions all distances are computed without rounding, so that ties are decided *)
TieSlack(r) == IF \A i \in 1..3 : Abs(r.d[i]) \in {0, 1, 2, 4, 8} THEN 0 ELSE 64
(* x = <<exit distance or NoHit, hit>> *)
BoxRayOk(K, b, r, tm, x) ==
  LET m == Meets(b, r)
      t == RatKey(Max2(0, m.exit[1]), m.exit[2], K.sh)
  IN CASE m.is = "out" -> x[1] = NoHit /\ x[2] = 0
       [] m.is = "in" -> IF t > tm + TieSlack(r) THEN x[1] # NoHit /\ Near(x[1], t) /\ x[2] = 1
                      ELSE IF t + TieSlack(r) <= tm THEN x[1] = NoHit /\ x[2] = 0 ELSE TRUE
       [] OTHER -> TRUE
PacketBoxOk(K, e, b, x) ==
  LET R(i) == e.rays[((i - 1) % Len(e.rays)) + 1]
      T(i) == e.out.raw[i].t
      M == TLCEval([i \in 1..4 |-> Meets(b, R(i))])
      E(i) == SignedRat(M[i].entry[1], M[i].entry[2], K.sh)
      sure == \E i \in 1..4 : R(i).nan = 0 /\ M[i].is = "in" /\ E(i) + TieSlack(R(i)) < T(i)
      maybe == \E i \in 1..4 : R(i).nan # 0 \/ (M[i].is # "out" /\ (M[i].is = "in" => E(i) < T(i) + TieSlack(R(i))))
  IN /\ sure => x # <<>>
     /\ x # <<>> => maybe
     /\ x # <<>> => \A i \in 1..4 : (R(i).nan = 0 /\ M[i].is = "in") => Near(x[i], E(i))
Proper(b) == Len(b) = 6 /\ \A i \in 1..3 : b[i] <= b[i + 3]
BoxRaysOk(K, e) ==
  \A j \in DOMAIN e.boxes :
    Proper(e.boxes[j]) =>
      /\ \A i \in 1..4 :
           LET r == e.rays[((i - 1) % Len(e.rays)) + 1]
           IN IF r.nan # 0 THEN TRUE
              ELSE /\ BoxRayOk(K, e.boxes[j], r, TMin, e.out.direct[i].set.b[j])
                   /\ BoxRayOk(K, e.boxes[j], r, TMin, e.out.lanes[i].b[j])
                   /\ \A m \in DOMAIN e.mins :
                        BoxRayOk(K, e.boxes[j], r, TmKey(K, e.mins[m]), e.out.direct[i].tms[m][j])
      /\ PacketBoxOk(K, e, e.boxes[j], e.out.box4[j])

--------------------------------------------------------------------------------
(* Morton codes *)
RECURSIVE Spread(_, _)
Spread(n, i) == IF i = 10 THEN 0 ELSE (IF (n \div Pow2(i)) % 2 = 1 THEN Pow2(3 * i) ELSE 0) + Spread(n, i + 1)
Interleave(c) == Spread(c[1], 0) + 2 * Spread(c[2], 0) + 4 * Spread(c[3], 0)
RECURSIVE Gather(_, _, _)
Gather(code, ax, i) == IF i = 10 THEN 0 ELSE ((code \div Pow2(3 * i + ax)) % 2) * Pow2(i) + Gather(code, ax, i + 1)
(* Cells a coordinate may fall into: its own, or the neighbour when it lies on a cell's border *)
CellOk(c, p, lo, hi, dim) ==
  LET w == hi - lo
      g == (p - lo) * dim          \* position times w
      fl == g \div w
      rem == g % w
      cl(x) == Max2(0, Min2(dim - 1, x))
  IN IF w = 0 THEN c \in 0..(dim - 1)
     ELSE \/ c = cl(fl)
          \/ (rem * 16 <= w /\ c = cl(fl - 1) /\ Pow2(Log2(w)) # w)
          \/ ((w - rem) * 16 <= w /\ c = cl(fl + 1) /\ Pow2(Log2(w)) # w)
CodeOk(e, p, code) ==
  \A ax \in 0..2 : CellOk(Gather(code, ax, 0), p[ax + 1], e.box[ax + 1], e.box[ax + 4], e.dim)
MortonOk(K, e) ==
  LET o == e.out
      n == Len(e.pts)
  IN /\ o.max = 1024
     /\ \A i \in DOMAIN e.ints : e.ints[i] < 1024 => o.split[i] = Spread(e.ints[i], 0)
     /\ \A i \in DOMAIN e.cells : o.codes[i] = Interleave(e.cells[i])
     /\ \A i \in 1..n : o.enc[i] >= 0 /\ o.enc[i] < Pow2(30) /\ CodeOk(e, e.pts[i], o.enc[i])
     /\ o.mc = o.enc
     /\ Len(o.order) = n /\ {o.order[i] : i \in 1..n} = 0..(n - 1)
     /\ \A i \in 1..(n - 1) : o.mc[o.order[i] + 1] <= o.mc[o.order[i + 1] + 1]

--------------------------------------------------------------------------------
(* Node records: little state machines. sets: <<what, value or -1>>; puts: <<slot, box, how>> *)
RECURSIVE Filled(_, _)
Filled(sets, n) ==    \* <<first, count>> after n of the calls; boxes come with 0 in both
  IF n = 0 THEN <<0, 0>>
  ELSE LET b == Filled(sets, n - 1)
       IN IF sets[n][1] \in {0, 1} THEN <<sets[n][2], b[2]>> ELSE <<b[1], sets[n][2]>>
B01(b) == IF b THEN 1 ELSE 0
NodeSays(x, st, b) ==
  /\ x.first = st[1] /\ x.rfirst = st[1] /\ x.count = st[2] /\ x.rcount = st[2]
  /\ x.leaf = B01(st[2] >= 0) /\ x.inner = B01(st[2] < 0 /\ st[1] >= 0) /\ x.valid = B01(st[1] >= 0)
  /\ x.b = b
RECURSIVE Put(_, _, _, _)
Put(puts, n, B, start) ==     \* the boxes of the four slots after n of the calls
  IF n = 0 THEN start ELSE [Put(puts, n - 1, B, start) EXCEPT ![puts[n][1] + 1] = B[puts[n][2] + 1]]
Columns(slots) == [i \in 1..6 |-> [j \in 1..4 |-> slots[j][i]]]
NodeOk(K, e) ==
  LET o == e.out
      B == [i \in DOMAIN e.boxes |-> BoxKeys(K, e.boxes[i])]
      empty == <<Dflt, Dflt, Dflt, -Dflt, -Dflt, -Dflt>>
      start == [j \in 1..4 |-> IF e.how = 0 THEN empty ELSE <<0, 0, 0, 0, 0, 0>>]
      kids == <<<<-1, -1, -1, -1>>, <<-1, -1, -1, -1>>>>
      Wd(x, slots) == x.all = Columns(slots) /\ x.mm = Columns(slots) /\ x.kids = kids
  IN /\ o.fresh = empty
     /\ \A i \in DOMAIN e.sets : NodeSays(o.says[i], Filled(e.sets, i), B[1])
     /\ \A i \in DOMAIN o.asks : o.asks[i][1] = o.asks[i][2]
     /\ o.ask4[1] = o.ask4[2]
     /\ Wd(o.first, start)
     /\ \A i \in DOMAIN e.puts : Wd(o.wides[i], Put(e.puts, i, B, start))

--------------------------------------------------------------------------------
(* The camera and the triangle of the examples. Directions are compared in 12-bit fixed point. *)
Fix12(k) == FixFloor(k, 12)
Along(f, d) ==      \* f: keys of a unit vector; d: integers, not all 0
  LET g == TLCEval([i \in 1..3 |-> Fix12(f[i])])
      far == CHOOSE i \in 1..3 : \A j \in 1..3 : Abs(d[i]) >= Abs(d[j])
  IN /\ \A i \in 1..3 : ~(Abs(f[i]) > Inf)
     /\ g[far] # 0 /\ (g[far] > 0 <=> d[far] > 0)
     /\ \A i \in 1..3 : Abs(g[i] * d[far] - g[far] * d[i]) <= 4 * (Abs(d[i]) + Abs(d[far]))
     /\ Abs(g[1] * g[1] + g[2] * g[2] + g[3] * g[3] - Pow2(24)) <= 40000
(* Rays of four pixels, alone and as a packet, of a camera at pos with the screen p1 + x/res[1] right + y/res[2] up *)
CamLooks(e, x, pos, p1, right, up) ==
  \A i \in 1..4 :
    LET most == SetMax({e.res[1], e.res[2]})        \* both are powers of two
        d == TLCEval([j \in 1..3 |-> (p1[j] - pos[j]) * most + e.px[i][1] * (most \div e.res[1]) * right[j]
                                                          + e.px[i][2] * (most \div e.res[2]) * up[j]])
        at == [j \in 1..3 |-> Key(pos[j], 0)]
    IN /\ x.one[i].o = at /\ x.four[i].o = at /\ x.pos = at
       /\ x.one[i].t = Dflt /\ x.four[i].t = Dflt /\ x.one[i].tm = TMin /\ x.four[i].inv = 1
       /\ d # <<0, 0, 0>> => Along(x.one[i].d, d) /\ Along(x.four[i].d, d)
RECURSIVE CamAt(_, _, _)
CamAt(e, side, n) ==
  IF n = 0 THEN e.pos
  ELSE LET b == CamAt(e, side, n - 1)
           m == e.moves[n]
       IN [j \in 1..3 |-> b[j] - m[1] * side[j] + (IF j = 2 THEN m[2] ELSE 0) + m[3] * e.dir[j]]
CamOk(K, e) ==
  LET o == e.out
      side == <<-e.dir[3], 0, e.dir[1]>>       \* dir x (0, 1, 0), for horizontal unit directions
      right == [j \in 1..3 |-> 2 * e.asp * side[j]]
      up == <<0, -2, 0>>
      first(c) == [j \in 1..3 |-> c[j] + e.dir[j] - e.asp * side[j] + (IF j = 2 THEN 1 ELSE 0)]
      (* turning: the new direction before it is normalised, in eighths *)
      turn == [j \in 1..3 |-> 8 * e.dir[j] - e.turn[1] * right[j] - e.turn[2] * up[j]]
      mid == CHOOSE i \in 1..4 : e.px[i] = <<e.res[1] \div 2, e.res[2] \div 2>>
      g == TLCEval([i \in 1..3 |-> Fix12(o.turned.dir[i])])
      m == e.after
      t == e.tri
      e1 == <<t[4] - t[1], t[5] - t[2], t[6] - t[3]>>
      e2 == <<t[7] - t[1], t[8] - t[2], t[9] - t[3]>>
      n == Cross(e1, e2)
      mean(i) == LET s == t[i] + t[i + 3] + t[i + 6] IN SignedRat(s, 3, 0)
  IN /\ CamLooks(e, o.raw, e.pos, e.p1, e.right, e.up)
     /\ \A k \in DOMAIN e.moves :
          LET c == CamAt(e, side, k) IN CamLooks(e, o.moves[k], c, first(c), right, up)
     (* the pixel in the middle of the screen looks where the camera does *)
     /\ turn # <<0, 0, 0>> =>
          /\ Along(o.turned.dir, turn)
          (* moving on after that *)
          /\ o.after.dir = o.turned.dir
          /\ \A j \in 1..3 :
               Abs(Fix12(o.after.pos[j]) - Fix12(o.turned.pos[j]) - m[3] * g[j]
                   + m[1] * <<-g[3], 0, g[1]>>[j] - (IF j = 2 THEN m[2] * 4096 ELSE 0)) <= 4 * (Abs(m[1]) + Abs(m[3]) + 1)
          /\ (turn[1] # 0 \/ turn[3] # 0) => Along(o.turned.one[mid].d, turn) /\ Along(o.turned.four[mid].d, turn)
     /\ o.box = TriBox(t, <<0, 0, 0>>, 0, 0, 0)
     /\ \A i \in 1..3 : o.v[i] = VtxKey(t, i - 1, <<0, 0, 0>>, 0, 0) /\ Near(o.center[i], mean(i))
     /\ n # <<0, 0, 0>> => Along(o.normal, n)
================================================================================
