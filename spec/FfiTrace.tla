--------------------------------- MODULE FfiTrace ------------------------------
(* The C interface as an atomic object: a registry of binary and 4-wide structures.   *)
(* A recorded history of calls, possibly by several threads, is accepted if some      *)
(* order of the calls that respects their start and end times explains every answer.  *)
EXTENDS Rules, Ledger, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  c,      \* which recorded session
  k,      \* which of its histories
  done,   \* calls that have taken effect
  reg     \* registry: handle name |-> [kind, live, sc: scene its bounds belong to, id, seen: call that last looked at it unchanged]
vars == <<c, k, done, reg>>

K == Cases[c]
E == K.evs[k]
Calls == E.calls
X(i) == Calls[i]

Init == c \in 1..Len(Cases) /\ k = 1 /\ done = {} /\ reg = <<>>

(* A call may take effect once every call that returned before it started has *)
Todo == (1..Len(Calls)) \ done
Ready(i) == \A j \in Todo \ {i} : X(j).s1 > X(i).s0

Known(h) == h \in DOMAIN reg
Live(h, kind) == Known(h) /\ reg[h].kind = kind /\ reg[h].live
Set(h, r) == [x \in DOMAIN reg \cup {h} |-> IF x = h THEN r ELSE reg[x]]
OwnId(kind, id) == \A h \in DOMAIN reg : (reg[h].kind = kind /\ reg[h].live) => reg[h].id # id

P(sc) == Boxes(K, E.scenes[sc], Len(E.scenes[sc]), 0)
Size(sc) == Len(E.scenes[sc])
RECURSIVE JoinBoxes(_)
JoinBoxes(B) == IF Len(B) = 1 THEN B[1] ELSE Join(B[1], JoinBoxes(Tail(B)))
(* Bounds are those of this scene, not of another one or of more *)
Snug(b, sc) == Contains([i \in 1..6 |-> FixCeil(JoinBoxes(P(sc))[i], 10) + (IF i <= 3 THEN -1024 ELSE 1024)],
                        [i \in 1..6 |-> FixFloor(b[i], 10)])

(* What a handle must show: a tree over the scene's primitives with bounds made for them *)
Shows(x, r) ==
  LET n == Size(r.sc)
  IN /\ Walkable(x.nodes, Len(x.idx))
     /\ \A i \in DOMAIN x.idx : x.idx[i] \in 0..(n - 1)
     /\ WellFormed(x.nodes, Len(x.idx))
     /\ Range(x.idx) = 0..(n - 1)
     /\ ~r.sp => Len(x.idx) = n
     /\ Snug(Box6(x.nodes[1]), r.sc)
     /\ (~r.sp \/ r.re) => Encloses(x.nodes, x.idx, P(r.sc))
     /\ r.seen # 0 => X(r.seen).nodes = x.nodes /\ X(r.seen).idx = x.idx
     /\ r.first # 0 => SameShape(X(r.first).nodes, x.nodes) /\ X(r.first).idx = x.idx
ShowsWide(x, r) ==
  LET n == Size(r.sc)
  IN /\ WideWalkable(x.wn, Len(x.idx))
     /\ \A i \in DOMAIN x.idx : x.idx[i] \in 0..(n - 1)
     /\ Range(Entries(x.idx, AllWLeaves(x.wn))) = 0..(n - 1)
     /\ Len(Entries(x.idx, AllWLeaves(x.wn))) = Len(x.idx)
     /\ Len(x.wn) > 0
     /\ \A s \in 1..4 : (SlotLeaf(x.wn[1][s]) \/ SlotNode(x.wn[1][s])) => Snug(Box6(x.wn[1][s]), r.sc)
     /\ (~r.sp \/ r.re) => WideEncloses(x.wn, x.idx, P(r.sc))
     /\ r.seen # 0 => X(r.seen).wn = x.wn /\ X(r.seen).idx = x.idx

Create(i) ==
  LET x == X(i) IN
  /\ x.c = "create"
  /\ x.r = 0 /\ x.wrote = 1 /\ OwnId("b", x.id)
  /\ reg' = Set(x.h, [kind |-> "b", live |-> TRUE, sc |-> x.sc, id |-> x.id, seen |-> 0, first |-> 0, sp |-> x.b = "spatial", re |-> FALSE])
Convert(i) ==
  LET x == X(i) IN
  /\ x.c = "wide"
  /\ IF Live(x.from, "b")
     THEN /\ x.r = 0 /\ x.wrote = 1 /\ OwnId("w", x.id)
          /\ reg' = Set(x.h, [kind |-> "w", live |-> TRUE, sc |-> reg[x.from].sc, id |-> x.id, seen |-> 0, first |-> 0,
                              sp |-> reg[x.from].sp, re |-> reg[x.from].re])
     ELSE /\ Known(x.from) \/ (x.r # 0 /\ x.wrote = 0)      \* nobody ever returned it
          /\ reg' = IF x.wrote = 0 THEN reg
                    ELSE Set(x.h, [kind |-> "w", live |-> FALSE, sc |-> 1, id |-> x.id, seen |-> 0, first |-> 0, sp |-> FALSE, re |-> FALSE])
Move(i) ==
  LET x == X(i) IN
  /\ x.c = "refit"
  /\ IF Live(x.h, "b") THEN x.r = 0 /\ reg' = Set(x.h, [reg[x.h] EXCEPT !.sc = x.sc, !.seen = 0, !.re = TRUE])
     ELSE (Known(x.h) \/ x.r # 0) /\ reg' = reg
Free(i) ==
  LET x == X(i) IN
  /\ x.c \in {"free", "freew"}
  /\ reg' = IF Live(x.h, IF x.c = "free" THEN "b" ELSE "w") THEN Set(x.h, [reg[x.h] EXCEPT !.live = FALSE]) ELSE reg
Look(i) ==
  LET x == X(i) IN
  /\ x.c \in {"look", "lookw"}
  /\ IF Live(x.h, IF x.c = "look" THEN "b" ELSE "w")
     THEN /\ IF x.c = "look" THEN Shows(x, reg[x.h]) ELSE ShowsWide(x, reg[x.h])
          /\ reg' = Set(x.h, [reg[x.h] EXCEPT !.seen = i, !.first = IF @ = 0 THEN i ELSE @])
     ELSE reg' = reg

(* A query reads the structure at some moment of its own; its callback may use the interface meanwhile *)
Answers(q, r) ==
  LET n == Size(r.sc)
      t == IF Len(q.y) = 0 THEN q.t0 ELSE SubSeq(q.y[Len(q.y)], 2, Len(q.y[1]))
  IN /\ q.over = 0 /\ q.once = 1 /\ q.tf = t
     /\ q.stopped > 0 => Len(q.y) = q.stopped
     /\ Offered(q) \subseteq 0..(n - 1)
     /\ ~r.sp => Cardinality(Offered(q)) = Len(q.y)
     /\ Complete(K, E.scenes[r.sc], q)
Query(i) ==
  LET x == X(i) IN
  /\ x.c \in {"q", "qw"}
  /\ reg' = reg
  /\ Live(x.h, IF x.c = "q" THEN "b" ELSE "w") => (x.r = 0 /\ Answers(x.q[1], reg[x.h]))

Effect ==
  /\ k <= Len(K.evs) /\ E.e = "ffi"
  /\ \E i \in Todo :
       /\ Ready(i)
       /\ Create(i) \/ Convert(i) \/ Move(i) \/ Free(i) \/ Look(i) \/ Query(i)
       /\ done' = done \cup {i}
  /\ UNCHANGED <<c, k>>
Finish ==
  /\ k <= Len(K.evs) /\ E.e = "ffi" /\ Todo = {}
  /\ k' = k + 1 /\ done' = {} /\ reg' = <<>> /\ c' = c
  /\ PrintT(<<"ACCEPT", K.id, k>>)
(* Very many structures at once: each class of them went through the same calls *)
Has(class, a) == \E j \in 1..Len(E.acts[class + 1]) : SubSeq(E.acts[class + 1], j, j) = a
Before(class, a, b) == \E i, j \in 1..Len(E.acts[class + 1]) : i < j /\ SubSeq(E.acts[class + 1], i, i) = a /\ SubSeq(E.acts[class + 1], j, j) = b
Classes == 0..(Len(E.acts) - 1)
Last(class) == ((E.n - 1 - class) \div Len(E.acts)) * Len(E.acts) + class
Far == IF E.shift < 0 THEN -E.shift ELSE E.shift
(* All of a class look alike: one entry, at the place where the last refit put it, and a ray finds it there *)
Moved(on, class) == IF on = 0 THEN Has(class, "m") ELSE Before(class, "m", "w")
Fine(on, class) ==
  LET off == IF Moved(on, class) THEN E.shift ELSE 0
      s == SelectSeq(E.shows, LAMBDA x : x[1] = on /\ x[2] = class)
  IN /\ Len(s) = 1
     /\ SubSeq(s[1], 1, 7) = <<on, class, class, Last(class), off, 1000, 1>>
     /\ s[1][IF Moved(on, class) THEN 9 ELSE 8] = 1
CrowdOk ==
  /\ E.bad = 0 /\ E.made = E.n /\ E.rep = 0 /\ E.repw = 0
  /\ Far >= 2 /\ Len(E.acts) <= E.n
  /\ E.madew = Cardinality({i \in 0..(E.n - 1) : Has(i % Len(E.acts), "w")})
  /\ \A class \in Classes : ~Has(class, "f") => Fine(0, class)
  /\ \A class \in Classes : (Has(class, "w") /\ ~Has(class, "g")) => Fine(1, class)
Crowd ==
  /\ k <= Len(K.evs) /\ E.e = "crowd" /\ CrowdOk
  /\ k' = k + 1 /\ UNCHANGED <<c, done, reg>>
  /\ PrintT(<<"ACCEPT", K.id, k>>)
(* Memory: the registry holds the bytes of what lives *)
Book ==
  /\ k <= Len(K.evs) /\ E.e = "ledger" /\ Cardinality(done) < Len(E.steps)
  /\ LET i == Cardinality(done) + 1
         s == E.steps[i]
         o == E.out[i]
         last == IF i = 1 THEN 0 ELSE E.out[i - 1][3]
     IN /\ Possible(reg, s, o)
        /\ Priced(s, o, last)
        /\ reg' = Booked(reg, s, o, last)
        /\ s.c = "create" => o[2] >= 4 * E.sizes[s.k + 1]
        /\ Balanced(reg', Lived(E.steps, i), o[3])
        /\ done' = done \cup {i}
  /\ UNCHANGED <<c, k>>
Closed ==
  /\ k <= Len(K.evs) /\ E.e = "ledger" /\ Cardinality(done) = Len(E.steps)
  /\ k' = k + 1 /\ done' = {} /\ reg' = <<>> /\ c' = c
  /\ PrintT(<<"ACCEPT", K.id, k>>)
Next == Effect \/ Finish \/ Crowd \/ Book \/ Closed
Spec == Init /\ [][Next]_vars
================================================================================
