---------------------------------- MODULE Ledger -------------------------------
(* How much memory structures take: each one what its making took while it lives,     *)
(* and nothing once it has been freed. held is the registry: handle |-> bytes.        *)
EXTENDS Integers, FiniteSets, Sequences

RECURSIVE Total(_, _)
Total(held, H) == IF H = {} THEN 0 ELSE LET h == CHOOSE h \in H : TRUE IN held[h] + Total(held, H \ {h})
Put(held, h, x) == [g \in DOMAIN held \cup {h} |-> IF g = h THEN x ELSE held[g]]
Drop(held, h) == [g \in DOMAIN held \ {h} |-> held[g]]

Makes(s) == s.c \in {"create", "wide"}
(* A step of a history; o = <<done, bytes of the tables it made, bytes in use>>; last: bytes in use before it *)
Booked(held, s, o, last) ==
  CASE Makes(s) -> IF o[1] = 1 THEN Put(held, s.h, o[3] - last) ELSE held
    [] s.c = "free" -> IF s.h \in DOMAIN held THEN Drop(held, s.h) ELSE held
    [] OTHER -> held
(* Steps on what lives succeed; nothing is made without primitives. What has been freed is empty: *)
(* whether it answers is for C14, but whatever it answers takes no room *)
Possible(held, s, o) ==
  o[1] = (CASE s.c = "create" -> 1
            [] s.c = "empty" -> 0
            [] s.c = "cycle" -> 1
            [] s.c = "again" -> o[1]
            [] s.c = "wide" -> IF s.from \in DOMAIN held THEN 1 ELSE 0
            [] OTHER -> IF s.h \in DOMAIN held THEN 1 ELSE 0)
Slack == 32768
(* Room to grow belongs to a structure, and so does an entry in a table of handles *)
Entry == 512
Priced(s, o, last) == Makes(s) => /\ o[3] - last >= o[2] - Slack
                                  /\ o[3] - last <= 16 * o[2] + Slack
(* How many entries a step may leave in the tables: s.n structures of both kinds lived only during a cycle *)
RECURSIVE Lived(_, _)
Lived(steps, i) == IF i = 0 THEN 0 ELSE Lived(steps, i - 1) + (IF steps[i].c = "cycle" THEN 2 * steps[i].n ELSE 1)
Balanced(held, made, live) ==
  LET t == Total(held, DOMAIN held)
  IN /\ live >= t - Slack - Entry * made
     /\ live <= t + Slack + Entry * made
================================================================================
