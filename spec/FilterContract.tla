--------------------------- MODULE FilterContract ----------------------------
(* What can be observed of the filter: messages arrive, each leaving a queue *)
(* of lines owed to each rule (destination 1..n) and to the junkyard (0);    *)
(* owed lines are delivered in order, exactly once; the counters account for *)
(* every line.  Items of a queue: [v |-> line, may |-> whether its time is   *)
(* so close to the limit that it may just as well be dropped].               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES owed,     \* set of packets [id, d, q]
          arrived   \* number of messages so far
cvars == <<owed, arrived>>

CInit == owed = {} /\ arrived = 0

(* items: sequence of [v, d, may] in the order of the message.               *)
PacketsOf(items, id) ==
  LET dests == {items[i].d : i \in 1..Len(items)}
      part(d) == SelectSeq(items, LAMBDA x : x.d = d)
  IN  {[id |-> id, d |-> d, q |-> part(d)] : d \in dests}
Arrive(items) ==
  /\ owed' = owed \cup PacketsOf(items, arrived)
  /\ arrived' = arrived + 1

(* The line `v` is delivered to destination set D (rules may share a         *)
(* subject); Same(a, b): b is the form in which a is published.              *)
Deliver(D, v, Same(_, _)) ==
  \E p \in owed :
    /\ p.d \in D
    /\ \E k \in 1..Len(p.q) :
         /\ \A j \in 1..(k - 1) : p.q[j].may
         /\ Same(p.q[k].v, v)
         /\ owed' = (owed \ {p}) \cup
                      (IF k = Len(p.q) THEN {} ELSE {[p EXCEPT !.q = SubSeq(p.q, k + 1, Len(p.q))]})
    /\ UNCHANGED arrived

CanDeliver(D, v, Same(_, _)) ==
  \E p \in owed : p.d \in D /\ \E k \in 1..Len(p.q) :
    Same(p.q[k].v, v) /\ \A j \in 1..(k - 1) : p.q[j].may

Settled == \A p \in owed : \A i \in 1..Len(p.q) : p.q[i].may
=============================================================================
