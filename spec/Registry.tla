--------------------------------- MODULE Registry ------------------------------
(* The C interface's registry as the code runs it: two lists of structures, each behind a *)
(* reader-writer lock that prefers waiting writers, a lock for every entry, and storage    *)
(* that handles point into. Threads make calls; every lock operation and every access to   *)
(* shared memory is a step of its own. abs is the object the interface is meant to be: it  *)
(* changes in one step per call, and every call's answer must be the one abs gives there.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NT,      \* threads
          NC,      \* calls each
          Bug
VARIABLES list,    \* "b" or "w" -> sequence of addresses, one per id
          heap,    \* address -> <<content, content>>: two halves, so that a torn read shows; 0: freed
          lock,    \* "b" or "w" -> [r: readers, w: writer or 0, q: waiting writers]
          el,      \* the same for the entries of "b", by id
          th,      \* thread -> the call under way
          abs,     \* "b" or "w" -> sequence of contents, 0: freed
          wrong    \* an answer that differed from the abstract object's
vars == <<list, heap, lock, el, th, abs, wrong>>

Free == [r |-> {}, w |-> 0, q |-> {}]
Idle == [pc |-> "idle", op |-> "", id |-> 0, tag |-> 0, got |-> 0, x |-> 0, y |-> 0, left |-> NC]
T == 1..NT
Init ==
  /\ list = [s \in {"b", "w"} |-> <<>>] /\ heap = <<>> /\ lock = [s \in {"b", "w"} |-> Free] /\ el = <<>>
  /\ th = [i \in T |-> Idle] /\ abs = [s \in {"b", "w"} |-> <<>>] /\ wrong = FALSE

CanRead(l) == l.w = 0 /\ l.q = {}
CanWrite(l) == l.w = 0 /\ l.r = {}
Me(i, f) == th' = [th EXCEPT ![i] = f]
At(i, pc) == th[i].pc = pc
Back(i) == [Idle EXCEPT !.left = th[i].left]
Same(s) == UNCHANGED s

(* Content: what a call stores is recognisable by its thread and number *)
Tag(i) == 10 * i + th[i].left
Start(i) ==
  /\ At(i, "idle") /\ th[i].left > 0
  /\ LET go(op, id) == Me(i, [th[i] EXCEPT !.op = op, !.id = id, !.tag = Tag(i), !.left = @ - 1,
                                           !.pc = IF op \in {"create", "free"} THEN "wantw" ELSE IF op = "freew" THEN "wantm" ELSE "wantr"])
     IN \/ go("create", 0)
        \/ \E id \in 1..Len(abs["b"]) : \E op \in {"wide", "refit", "look", "free"} : go(op, id)
        \/ \E id \in 1..Len(abs["w"]) : go("freew", id)
  /\ UNCHANGED <<list, heap, lock, el, abs, wrong>>

(* ---- locks *)
Announce(i) ==      \* a writer queues up: from now on no new readers
  /\ \/ At(i, "wantw") /\ lock' = [lock EXCEPT !["b"].q = @ \cup {i}] /\ Me(i, [th[i] EXCEPT !.pc = "waitw"])
     \/ At(i, "wantm") /\ lock' = [lock EXCEPT !["w"].q = @ \cup {i}] /\ Me(i, [th[i] EXCEPT !.pc = "waitm"])
  /\ UNCHANGED <<list, heap, el, abs, wrong>>
TakeW(i) ==
  /\ \/ /\ At(i, "waitw") /\ CanWrite(lock["b"])
        /\ lock' = [lock EXCEPT !["b"] = [@ EXCEPT !.w = i, !.q = @ \ {i}]]
        /\ Me(i, [th[i] EXCEPT !.pc = IF th[i].op = "create" THEN "push" ELSE "reset"])
     \/ /\ At(i, "waitm") /\ CanWrite(lock["w"])
        /\ lock' = [lock EXCEPT !["w"] = [@ EXCEPT !.w = i, !.q = @ \ {i}]]
        /\ Me(i, [th[i] EXCEPT !.pc = IF th[i].op = "wide" THEN "pushm" ELSE IF Bug = "order" THEN "wantr" ELSE "resetm"])
  /\ UNCHANGED <<list, heap, el, abs, wrong>>
TakeR(i) ==
  /\ At(i, "wantr") /\ CanRead(lock["b"])
  /\ lock' = [lock EXCEPT !["b"].r = @ \cup {i}]
  /\ Me(i, [th[i] EXCEPT !.pc = CASE th[i].op = "refit" -> "entw" [] th[i].op = "freew" -> "resetm" [] OTHER -> "entr"])
  /\ UNCHANGED <<list, heap, el, abs, wrong>>
Entry(i) ==
  LET id == th[i].id
      e == IF Bug = "one-entry" THEN 1 ELSE id
  IN /\ \/ /\ At(i, "entr") /\ (Bug = "no-entry" \/ (el[id].w = 0))
           /\ el' = [el EXCEPT ![id].r = @ \cup {i}]
           /\ Me(i, [th[i] EXCEPT !.pc = "read1"])
        \/ /\ At(i, "entw") /\ (Bug = "no-entry" \/ (el[id].w = 0 /\ el[id].r = {}))
           /\ el' = [el EXCEPT ![id].w = i]
           /\ Me(i, [th[i] EXCEPT !.pc = "write1"])
     /\ UNCHANGED <<list, heap, lock, abs, wrong>>

(* ---- create: push under the lock, and the id is the place it got *)
Push(i) ==
  LET t == th[i] IN
  /\ At(i, "push")
  /\ heap' = Append(heap, <<t.tag, t.tag>>)
  /\ list' = [list EXCEPT !["b"] = Append(@, Len(heap) + 1)]
  /\ el' = Append(el, Free)
  /\ abs' = [abs EXCEPT !["b"] = Append(@, t.tag)]
  /\ IF Bug = "len-outside"
     THEN lock' = [lock EXCEPT !["b"].w = 0] /\ Me(i, [t EXCEPT !.pc = "number"])
     ELSE UNCHANGED lock /\ Me(i, [t EXCEPT !.pc = "number"])
  /\ UNCHANGED wrong
Number(i) ==
  LET t == th[i] id == Len(list["b"]) IN
  /\ At(i, "number")
  /\ wrong' = (wrong \/ abs["b"][id] # t.tag)
  /\ lock' = IF Bug = "len-outside" THEN lock ELSE [lock EXCEPT !["b"].w = 0]
  /\ Me(i, Back(i))
  /\ UNCHANGED <<list, heap, el, abs>>

(* ---- free: the place stays, so that other ids do not move *)
Reset(i) ==
  LET t == th[i] s == IF At(i, "reset") THEN "b" ELSE "w" IN
  /\ At(i, "reset") \/ At(i, "resetm")
  /\ IF Bug = "remove" /\ s = "b"
     THEN /\ list' = [list EXCEPT ![s] = IF t.id <= Len(@) THEN SubSeq(@, 1, t.id - 1) \o SubSeq(@, t.id + 1, Len(@)) ELSE @]
          /\ UNCHANGED heap
     ELSE /\ heap' = [heap EXCEPT ![list[s][t.id]] = <<0, 0>>]
          /\ UNCHANGED list
  /\ abs' = [abs EXCEPT ![s][t.id] = 0]
  /\ lock' = [x \in {"b", "w"} |-> [lock[x] EXCEPT !.w = IF @ = i THEN 0 ELSE @, !.r = @ \ {i}]]
  /\ Me(i, Back(i))
  /\ UNCHANGED <<el, wrong>>

(* ---- refit writes in place, under the entry's lock *)
Write(i) ==
  LET t == th[i] a == list["b"][t.id] IN
  /\ \/ /\ At(i, "write1")
        /\ heap' = [heap EXCEPT ![a][1] = IF abs["b"][t.id] = 0 THEN 0 ELSE t.tag]
        /\ Me(i, [t EXCEPT !.pc = "write2"]) /\ UNCHANGED <<abs, lock, el>>
     \/ /\ At(i, "write2")
        /\ heap' = [heap EXCEPT ![a][2] = IF abs["b"][t.id] = 0 THEN 0 ELSE t.tag]
        /\ abs' = [abs EXCEPT !["b"][t.id] = IF @ = 0 THEN 0 ELSE t.tag]
        /\ lock' = [lock EXCEPT !["b"].r = @ \ {i}] /\ el' = [el EXCEPT ![t.id] = [@ EXCEPT !.w = IF @ = i THEN 0 ELSE @]]
        /\ Me(i, Back(i))
  /\ UNCHANGED <<list, wrong>>

(* ---- reading, for a query or a conversion *)
Read(i) ==
  LET t == th[i] a == list["b"][t.id] IN
  /\ \/ /\ At(i, "read1")
        /\ Me(i, [t EXCEPT !.pc = "read2", !.x = heap[a][1]]) /\ UNCHANGED <<lock, el, wrong>>
     \/ /\ At(i, "read2")
        /\ wrong' = (wrong \/ t.x # abs["b"][t.id] \/ heap[a][2] # abs["b"][t.id])
        /\ IF t.op = "wide"
           THEN Me(i, [t EXCEPT !.pc = "wantm", !.tag = t.x]) /\ UNCHANGED <<lock, el>>
           ELSE /\ Me(i, Back(i))
                /\ lock' = [lock EXCEPT !["b"].r = @ \ {i}] /\ el' = [el EXCEPT ![t.id].r = @ \ {i}]
  /\ UNCHANGED <<list, heap, abs>>
(* the conversion keeps the binary tree locked until the new structure is stored *)
PushM(i) ==
  LET t == th[i] IN
  /\ At(i, "pushm")
  /\ heap' = Append(heap, <<t.tag, t.tag>>)
  /\ list' = [list EXCEPT !["w"] = Append(@, IF Bug = "shared" THEN list["b"][t.id] ELSE Len(heap) + 1)]
  /\ abs' = [abs EXCEPT !["w"] = Append(@, t.tag)]
  /\ wrong' = (wrong \/ t.tag # abs["b"][t.id])
  /\ lock' = [lock EXCEPT !["w"].w = 0, !["b"].r = @ \ {i}]
  /\ el' = [el EXCEPT ![t.id].r = @ \ {i}]
  /\ Me(i, Back(i))

Done == \A i \in T : At(i, "idle") /\ th[i].left = 0
Next == \/ \E i \in T : Start(i) \/ Announce(i) \/ TakeW(i) \/ TakeR(i) \/ Entry(i) \/ Push(i) \/ Number(i) \/ Reset(i)
                        \/ Write(i) \/ Read(i) \/ PushM(i)
        \/ (Done /\ UNCHANGED vars)      \* anything else without a step is a deadlock
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* Every answer is the abstract object's *)
Answers == ~wrong
(* The storage is the abstract object's, except for entries being written *)
Refines == \A s \in {"b", "w"} :
             /\ Len(list[s]) = Len(abs[s])
             /\ \A id \in 1..Len(abs[s]) :
                  (s = "w" \/ \A i \in T : ~(th[i].op = "refit" /\ th[i].id = id /\ th[i].pc = "write2"))
                    => heap[list[s][id]] = <<abs[s][id], abs[s][id]>>
(* No two ids, of either kind, share storage *)
Own == \A s, t \in {"b", "w"} : \A i \in 1..Len(list[s]) : \A j \in 1..Len(list[t]) :
         (s # t \/ i # j) => list[s][i] # list[t][j]
================================================================================
