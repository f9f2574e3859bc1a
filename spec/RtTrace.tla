--------------------------------- MODULE RtTrace -------------------------------
(* A session of the library as a state machine: a scene, a current binary tree, a    *)
(* current 4-wide tree, and traversals that offer one primitive per step. Recorded    *)
(* sessions of the real library are replayed against it: every recorded event must    *)
(* be a step this machine allows. Steps that break a property of Props are reported   *)
(* ("REJECT"), and the session goes on with what the library really did, so that the  *)
(* rest of it is judged as well.                                                      *)
EXTENDS Rules, Calc, Tower, Json, IOUtils, TLC
CONSTANT Props      \* the properties this run decides

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  c,      \* which recorded session
  k,      \* next event
  y,      \* offers consumed of the running traversal, -1: none running
  bag,    \* what the running traversal may still offer: <<id, remaining entries, remaining near entries>>
  scene,  \* event that last set the scene; 0: the session's initial one
  tsrc,   \* event that last set the binary tree; 0: none
  tfor,   \* scene (event) the binary tree's bounds were made for; -1: unknown, -2: hand-made
  wsrc, wfor   \* the same for the 4-wide tree
vars == <<c, k, y, bag, scene, tsrc, tfor, wsrc, wfor>>

K == Cases[c]
E == K.evs[k]
Ev(i) == K.evs[i]
Tris(s) == IF s = 0 THEN K.tris ELSE Ev(s).tris
Nodes == IF tsrc = 0 THEN <<>> ELSE Ev(tsrc).nodes
Idx == IF tsrc = 0 THEN <<>> ELSE Ev(tsrc).idx
WNodes == IF wsrc = 0 THEN <<>> ELSE Ev(wsrc).wn
WIdx == IF wsrc = 0 THEN <<>> ELSE Ev(wsrc).idx

(* Guards: the properties of Props that a step breaks *)
Judge(failed) ==
  LET f == failed \cap Props IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", K.id, k, f>>)
Ask(p, ok) == IF p \in Props THEN (IF ok THEN {} ELSE {p}) ELSE {}
Asks(S) == S \cap Props # {}

Init ==
  /\ c \in 1..Len(Cases)
  /\ k = 1 /\ y = -1 /\ bag = {}
  /\ scene = 0 /\ tsrc = 0 /\ tfor = -1 /\ wsrc = 0 /\ wfor = -1

Is(name) == k <= Len(K.evs) /\ y = -1 /\ E.e = name
Step == k' = k + 1 /\ c' = c
NoOffer == UNCHANGED <<y, bag>>
KeepTree == UNCHANGED <<tsrc, tfor>>
KeepWide == UNCHANGED <<wsrc, wfor>>

--------------------------------------------------------------------------------
(* Builds *)
Twin(via, same(_)) == {j \in 1..(k - 1) : Ev(j).e = "build" /\ Ev(j).ok = 1 /\ Ev(j).b = E.b /\ Ev(j).leaf = E.leaf
                                          /\ Ev(j).n = E.n /\ Ev(j).via \in via /\ same(Ev(j))
                                          /\ \A i \in j..k : Ev(i).e # "scene"}
SameAs(j) == SameTree(Ev(j).nodes, Ev(j).idx, E.nodes, E.idx)
Comparable(e) == Walkable(e.nodes, Len(e.idx))

BuildFailures ==
  Ask("C12", BuildReport(E)) \cup
  Ask("C01", E.via = "lib" => References(E)) \cup
  Ask("C02", E.via = "lib" => ProperTree(E)) \cup
  Ask("C03", (E.via = "lib" /\ Valid(E)) => BoundsEnclose(K, Tris(scene), E)) \cup
  Ask("C17", E.via = "lib" => LeafSizes(E)) \cup
  Ask("C04", LET J == IF E.bb = "none" /\ E.ok = 1 /\ Comparable(E)
                      THEN Twin({E.via}, LAMBDA x : x.bb = "own" /\ x.via = "lib") ELSE {}
             IN J # {} => SameAs(SetMin(J))) \cup
  Ask("C13", LET J == IF E.ok = 1 /\ Comparable(E) THEN Twin({E.via}, LAMBDA x : x.bb = E.bb /\ x.pad = E.pad) ELSE {}
             IN J # {} => SameAs(SetMin(J))) \cup
  Ask("C15", E.via = "ffi" => /\ BuildReport(E) /\ References(E) /\ ProperTree(E) /\ LeafSizes(E)
                              /\ (K.flt = 0 /\ Valid(E) /\ HasExtents(E)) => BoundsEnclose(K, Tris(scene), E)
                              (* whatever the layout of the caller's arrays: the library's tree *)
                              /\ LET J == IF E.ok = 1 /\ Comparable(E)
                                          THEN Twin(IF HasExtents(E) THEN {"lib", "ffi"} ELSE {"ffi"},
                                                    LAMBDA x : x.bb = E.bb /\ x.pad = E.pad) ELSE {}
                                 IN J # {} => SameAs(SetMin(J)))

Build ==
  /\ Is("build") /\ Step /\ NoOffer
  /\ Judge(BuildFailures)
  /\ IF E.ok = 1 THEN tsrc' = k /\ tfor' = (IF HasExtents(E) /\ E.n = Len(Tris(scene)) /\ E.bb # "len" THEN scene ELSE -1)
                 ELSE tsrc' = 0 /\ tfor' = -1
  /\ wsrc' = 0 /\ wfor' = -1
  /\ UNCHANGED scene

Empty ==
  /\ Is("empty") /\ Step /\ NoOffer
  /\ Judge(Ask("C08", E.nodes = <<>> /\ E.wn = <<>> /\ E.idx = <<>> /\ E.widx = <<>>))
  /\ tsrc' = k /\ tfor' = -1 /\ wsrc' = k /\ wfor' = -1
  /\ UNCHANGED scene

Synth ==
  /\ Is("synth") /\ Step /\ NoOffer
  /\ tsrc' = k /\ tfor' = -2 /\ wsrc' = 0 /\ wfor' = -1
  /\ UNCHANGED scene

SynthW ==
  /\ Is("synthw") /\ Step /\ NoOffer
  /\ wsrc' = k /\ wfor' = -2
  /\ UNCHANGED scene /\ KeepTree

--------------------------------------------------------------------------------
(* Conversion *)
WidenFailures ==
  Ask("C10", /\ E.code = 0
             /\ E.idx = Idx
             /\ E.bn = Nodes
             /\ E.pc = Len(Idx)
             /\ (E.bnd # <<>> /\ Len(Nodes) > 0) => E.bnd = Box6(Nodes[1])
             /\ Len(Nodes) = 0 => E.wn = <<>>
             /\ (Len(Nodes) > 0 /\ WellFormed(Nodes, Len(Idx))) =>
                  /\ WideWalkable(E.wn, Len(E.idx))
                  /\ IF Len(Nodes) <= 140 THEN WidePreserves(Nodes, E.wn) ELSE WideLeavesKept(Nodes, E.wn))
Widen ==
  /\ Is("mbvh") /\ Step /\ NoOffer
  /\ Judge(WidenFailures)
  /\ wsrc' = k /\ wfor' = tfor
  /\ UNCHANGED scene /\ KeepTree

Into ==
  /\ Is("into") /\ Step /\ NoOffer
  /\ Judge(Ask("C02", E.on = "b" => E.nodes = Nodes /\ E.nodes2 = Nodes /\ E.idx = Idx /\ E.idx2 = Idx) \cup
           Ask("C10", E.on = "w" => E.wn = WNodes /\ E.wn2 = WNodes /\ E.idx = WIdx /\ E.idx2 = WIdx))
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

--------------------------------------------------------------------------------
(* Moving primitives *)
NewBoxes == Boxes(K, E.tris, Len(E.tris), E.pad)
RefitFailures ==
  Ask("C11", Walkable(Nodes, Len(Idx)) => Refitted(Nodes, Idx, E, NewBoxes)) \cup
  Ask("C23", ((\E j \in 1..(k - 1) : Ev(j).e = "serde") /\ E.hasfresh = 1) => E.fresh = E.nodes)
Refit ==
  /\ Is("refit") /\ Step /\ NoOffer
  /\ Judge(RefitFailures)
  /\ tsrc' = k /\ tfor' = (IF E.pad >= 0 THEN k ELSE -1)
  /\ UNCHANGED scene /\ KeepWide

Scene ==
  /\ Is("scene") /\ Step /\ NoOffer
  /\ scene' = k
  /\ KeepTree /\ KeepWide

--------------------------------------------------------------------------------
(* Saving and loading *)
SerdeFailures ==
  Ask("C23", IF E.on = "b"
             THEN E.nodes = Nodes /\ E.nodes2 = Nodes /\ E.idx = Idx /\ E.idx2 = Idx /\ E.k1 = E.k0 /\ E.k2 = E.k0
             ELSE /\ E.wn = WNodes /\ E.wn2 = WNodes /\ E.idx = WIdx /\ E.idx2 = WIdx /\ E.nodes2 = E.nodes
                  /\ (Ev(wsrc).e = "mbvh" => E.nodes = Ev(wsrc).bn))
Serde ==
  /\ Is("serde") /\ Step /\ NoOffer
  /\ Judge(SerdeFailures)
  /\ IF E.on = "b" THEN tsrc' = k /\ UNCHANGED tfor ELSE KeepTree
  /\ KeepWide      \* checked equal, so the event that made it still describes it
  /\ UNCHANGED scene

Validate ==
  /\ Is("validate") /\ Step /\ NoOffer
  /\ Judge(Ask("C16", Validated(E)))
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

--------------------------------------------------------------------------------
(* Traversals *)
OnIdx == IF E.on = "b" THEN Idx ELSE WIdx
Sound == IF E.on = "b" THEN Walkable(Nodes, Len(Idx)) ELSE WideWalkable(WNodes, Len(WIdx))
(* Leaves as <<first, count, stored bounds, exempt from skipping>> *)
OnLeaves ==
  IF E.on = "b" THEN LET L == AllLeaves(Nodes) IN TLCEval([i \in DOMAIN L |-> <<L[i][1], L[i][2], N(Nodes, L[i][4]), L[i][4] = 0>>])
  ELSE LET L == AllWLeaves(WNodes) IN TLCEval([i \in DOMAIN L |-> <<L[i][1], L[i][2], L[i][4], FALSE>>])
NearLeaves(L) == SelectSeq(L, LAMBDA l : l[4] \/ ~AllMiss(K, E, l[3]))

(* Do the bounds of the traversed tree enclose the current scene's primitives? *)
Faithful ==
  LET f == IF E.on = "b" THEN tfor ELSE wfor
  IN IF f = -1 THEN FALSE
     ELSE IF f = -2
     THEN /\ Sound
          /\ \A i \in DOMAIN OnIdx : OnIdx[i] < Len(Tris(scene))
          /\ LET P == Boxes(K, Tris(scene), Len(Tris(scene)), 0)
             IN IF E.on = "b" THEN Encloses(Nodes, Idx, P) ELSE WideEncloses(WNodes, WIdx, P)
     ELSE Tris(f) = Tris(scene)
(* A hand-made tree need not hold all primitives; a built one does (C01) *)
Known == IF (IF E.on = "b" THEN tfor ELSE wfor) = -2 THEN Range(Entries(OnIdx, OnLeaves)) ELSE 0..(Len(Tris(scene)) - 1)

Begin ==
  /\ Is("q")
  /\ y' = 0
  /\ bag' = IF Asks({"C08", "C21", "C15"}) /\ Sound
            THEN LET L == OnLeaves
                     R == Entries(OnIdx, L)
                     Q == IF Asks({"C21"}) /\ K.flt = 0 /\ ~AnyNan(E) THEN Entries(OnIdx, NearLeaves(L)) ELSE R
                 IN {<<x, Count(R, x), Count(Q, x)>> : x \in Offered(E)}
            ELSE {}
  /\ UNCHANGED <<c, k, scene, tsrc, tfor, wsrc, wfor>>

Running == k <= Len(K.evs) /\ y >= 0 /\ E.e = "q"
Room(x) == CHOOSE b \in bag : b[1] = x
OfferFailures(x) ==
  Ask("C08", /\ bag # {} => Room(x)[2] > 0
             /\ ObjApi(E) => x < E.plen) \cup
  Ask("C15", (bag # {} /\ E.api = "ffi") => Room(x)[2] > 0) \cup
  Ask("C21", bag # {} => Room(x)[3] > 0)
Offer ==
  /\ Running /\ y < Len(E.y)
  /\ LET x == E.y[y + 1][1]
     IN /\ Judge(OfferFailures(x))
        /\ bag' = {IF b[1] = x THEN <<x, b[2] - 1, b[3] - 1>> ELSE b : b \in bag}
  /\ y' = y + 1
  /\ UNCHANGED <<c, k, scene, tsrc, tfor, wsrc, wfor>>

Req == IF Faithful THEN Required(K, Tris(scene), E) \cap Known ELSE {}
Missed == E.stopped = 0 /\ ~(Req \subseteq Offered(E))
(* The traversal itself never changes the distances *)
TKept ==
  /\ LET t == IF Len(E.y) = 0 THEN E.t0 ELSE SubSeq(E.y[Len(E.y)], 2, Len(E.y[1])) IN E.tf = t
  /\ E.con = "none" => E.tf = E.t0
Consumed ==
  CASE E.con = "closest" -> (E.stopped = 0 /\ Faithful) => Closest(K, Tris(scene), E)
    [] E.con = "any" -> (E.lim = -1 /\ Faithful) => AnyHit(K, Tris(scene), E)
    [] OTHER -> TRUE
Stops == E.stopped > 0 => Len(E.y) = E.stopped
FfiTwin == k > 1 /\ Ev(k - 1).e = "q" /\ Ev(k - 1).api = "ffi" /\ E.api = "sidx" /\ Ev(k - 1).rays = E.rays
           /\ Ev(k - 1).con = E.con /\ Ev(k - 1).on = E.on /\ Ev(k - 1).kind = E.kind
Ids(s) == [i \in DOMAIN s |-> s[i][1]]
EndFailures ==
  Ask("C05", E.kind = "r" => ~Missed) \cup
  Ask("C06", E.kind = "p" => ~Missed) \cup
  Ask("C09", ~Missed /\ E.over = 0) \cup
  Ask("C07", Consumed /\ TKept /\ Stops) \cup
  Ask("C08", /\ E.again = 0 /\ E.over = 0
             /\ (E.on = "b" /\ AnyNan(E)) => E.y = <<>>
             /\ TKept) \cup
  Ask("C15", /\ E.api = "ffi" =>
                  /\ E.once = 1 /\ E.over = 0 /\ TKept /\ Stops
                  /\ IF AnyNan(E) THEN E.code = 4 /\ E.y = <<>> /\ E.tf = E.t0
                     ELSE E.code = 0 /\ ~Missed /\ Consumed
             /\ (FfiTwin /\ ~AnyNan(E)) =>
                  LET f == Ev(k - 1)
                  IN (f.stopped = 0 /\ E.stopped = 0) => SameBag(Ids(f.y), Ids(E.y)) /\ f.tf = E.tf)
End ==
  /\ Running /\ y = Len(E.y)
  /\ Judge(EndFailures)
  /\ y' = -1 /\ bag' = {} /\ Step
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

(* Every entry point with the same ray *)
Within(s, lim) == SelectSeq(s, LAMBDA x : x < lim)
QallReq ==
  IF ~Faithful THEN {}
  ELSE Known \cap UNION {{h[1] : h \in {g \in LaneHits(K, Tris(scene), E, l) : g[2] + Slack < E.t0[l]}} : l \in Lanes(E)}
QallFailures ==
  LET X == E.ys
      complete == \A i \in DOMAIN X : (IF X[i].obj = 1 THEN {x \in QallReq : x < E.plen} ELSE QallReq) \subseteq Range(X[i].y)
      ix == {i \in DOMAIN X : X[i].obj = 0}
      ob == {i \in DOMAIN X : X[i].obj = 1}
      all == X[SetMin(ix)].y
      nan == AnyNan(E)
  IN Ask("C08", /\ \A i \in DOMAIN X : X[i].again = 0 /\ X[i].over = 0
                /\ ix # {} =>
                     /\ \A i \in ix : SameBag(X[i].y, all)
                     /\ \A i \in ob : SameBag(X[i].y, Within(all, E.plen))
                /\ (E.on = "b" /\ nan) => \A i \in DOMAIN X : X[i].y = <<>>
                /\ (Sound /\ ix # {}) =>
                     LET R == Entries(OnIdx, OnLeaves)
                     IN \A x \in Range(all) : Count(all, x) <= Count(R, x)) \cup
     Ask("C05", E.kind = "r" => complete) \cup
     Ask("C06", E.kind = "p" => complete) \cup
     Ask("C09", complete) \cup
     Ask("C23", LET J == {j \in 1..(k - 1) : /\ Ev(j).e = "qall" /\ Ev(j).on = E.on /\ Ev(j).kind = E.kind
                                            /\ Ev(j).rays = E.rays /\ Ev(j).plen = E.plen
                                            /\ \A i \in j..k : Ev(i).e \in {"serde", "qall", "q", "validate", "into"}}
                IN \A j \in J : /\ Len(Ev(j).ys) = Len(X)
                                /\ \A i \in DOMAIN X : X[i].api = Ev(j).ys[i].api /\ SameBag(X[i].y, Ev(j).ys[i].y))
QueryAll ==
  /\ Is("qall") /\ Step /\ NoOffer
  /\ Judge(QallFailures)
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

--------------------------------------------------------------------------------
(* Operations without state *)
CalcFailures ==
  CASE E.e = "box" -> Ask("C18", IF K.flt = 1 THEN WildBoxOk(E) ELSE BoxOk(K, E))
    [] E.e = "tri" -> Ask("C19", TriOk(K, E))
    [] E.e = "rays" -> Ask("C20", RaysOk(K, E)) \cup Ask("C24", BoxRaysOk(K, E)) \cup Ask("C23", RaysKept(E))
    [] E.e = "morton" -> Ask("C22", MortonOk(K, E))
    [] E.e = "node" -> Ask("C25", NodeOk(K, E))
    [] E.e = "cam" -> Ask("C26", CamOk(K, E))
Calculate ==
  /\ Is("box") \/ Is("tri") \/ Is("rays") \/ Is("morton") \/ Is("node") \/ Is("cam")
  /\ Step /\ NoOffer
  /\ Judge(CalcFailures)
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

--------------------------------------------------------------------------------
(* Several traversals under way at once (y: offers consumed; bag: how far each of them is): *)
(* each goes on as it does alone, whatever the others do, and the trees stay what they are. *)
ManyBegin ==
  /\ Is("many")
  /\ y' = 0 /\ bag' = {<<w, 0>> : w \in 0..(Len(E.alone) - 1)}
  /\ UNCHANGED <<c, k, scene, tsrc, tfor, wsrc, wfor>>
Together == k <= Len(K.evs) /\ y >= 0 /\ E.e = "many"
ManyOffer ==
  /\ Together /\ y < Len(E.got)
  /\ LET g == E.got[y + 1]
         b == CHOOSE m \in bag : m[1] = g[1]
         A == E.alone[g[1] + 1]
     IN /\ Judge(Ask("C27", b[2] < Len(A) /\ A[b[2] + 1] = <<g[2], g[3]>>))
        /\ bag' = (bag \ {b}) \cup {<<b[1], b[2] + 1>>}
  /\ y' = y + 1
  /\ UNCHANGED <<c, k, scene, tsrc, tfor, wsrc, wfor>>
ManyEnd ==
  /\ Together /\ y = Len(E.got)
  /\ Judge(Ask("C27", /\ E.mode = "threads" => \A b \in bag : b[2] = Len(E.alone[b[1] + 1])
                      /\ tsrc > 0 => E.nodes = Nodes /\ E.idx = Idx
                      /\ wsrc > 0 => E.wn = WNodes /\ E.widx = WIdx))
  /\ y' = -1 /\ bag' = {} /\ Step
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

--------------------------------------------------------------------------------
(* Trees too large to be written down *)
TowersBefore == {j \in 1..(k - 1) : Ev(j).e = "tbuild"}
TowerBuildFailures ==
  Ask("C01", TowerReferences(E)) \cup Ask("C02", TowerProper(E)) \cup Ask("C17", TowerLeaves(E)) \cup
  Ask("C13", \A j \in TowersBefore : Ev(j).bb = E.bb => TowerSame(Ev(j), E)) \cup
  Ask("C04", \A j \in TowersBefore : TowerSame(Ev(j), E)) \cup
  Ask("C15", TowerReferences(E) /\ TowerProper(E) /\ TowerLeaves(E) /\ \A j \in TowersBefore : TowerSame(Ev(j), E)) \cup
  Ask("C16", E.valid = 1)
TowerFailures ==
  CASE E.e = "tvalidate" -> Ask("C16", TowerValid(E))
    [] E.e = "tbuild" -> TowerBuildFailures
    [] E.e = "trefit" -> {}
    [] E.e = "tmbvh" -> Ask("C10", TowerWide(E)) \cup Ask("C15", TowerWide(E))
    [] E.e = "tq" -> Ask("C05", E.kind = "r" => TowerComplete(E)) \cup Ask("C06", E.kind = "p" => TowerComplete(E)) \cup
                     Ask("C09", TowerComplete(E)) \cup Ask("C11", E.refits > 0 => TowerComplete(E) /\ TowerSkips(E)) \cup
                     Ask("C03", (E.shape = "built" /\ E.refits = 0) => TowerComplete(E)) \cup Ask("C08", TowerProtocol(E)) \cup
                     Ask("C15", TowerProtocol(E) /\ TowerComplete(E)) \cup Ask("C21", TowerSkips(E))
Climb ==
  /\ Is("tbuild") \/ Is("trefit") \/ Is("tvalidate") \/ Is("tmbvh") \/ Is("tq")
  /\ Step /\ NoOffer
  /\ Judge(TowerFailures)
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

--------------------------------------------------------------------------------
(* An operation that ended the session: panic, crash or hang *)
Blamed(op) ==
  CASE op = "build" -> {"C01", "C02", "C03", "C04", "C12", "C13", "C15", "C17"}
    [] op \in {"q", "qall"} -> {"C05", "C06", "C07", "C08", "C09", "C15"}
    [] op = "mbvh" -> {"C10", "C15"}
    [] op = "into" -> {"C02", "C10"}
    [] op = "refit" -> {"C11", "C15"}
    [] op = "serde" -> {"C23"}
    [] op \in {"validate", "tower_validate"} -> {"C16"}
    [] op = "tower_build" -> {"C01", "C02", "C03", "C04", "C13", "C17"}
    [] op = "tower_refit" -> {"C11"}
    [] op = "tower_mbvh" -> {"C09", "C10"}
    [] op = "tower_q" -> {"C05", "C06", "C08", "C09", "C21"}
    [] op = "many" -> {"C27"}
    [] op = "calc" -> {"C18", "C19", "C20", "C22", "C24", "C25", "C26"}
    [] op = "empty" -> {"C08", "C10", "C23"}
    [] OTHER -> Props
Dies ==
  /\ Is("panic") \/ Is("crash")
  /\ Step /\ NoOffer
  /\ Judge(Blamed(E.op))
  /\ UNCHANGED scene /\ KeepTree /\ KeepWide

Next == Build \/ Empty \/ Synth \/ SynthW \/ Widen \/ Into \/ Refit \/ Scene \/ Serde \/ Validate
        \/ Begin \/ Offer \/ End \/ ManyBegin \/ ManyOffer \/ ManyEnd \/ QueryAll \/ Calculate \/ Climb \/ Dies
Spec == Init /\ [][Next]_vars
================================================================================
