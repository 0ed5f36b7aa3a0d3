------------------------------ MODULE RetryQueue -----------------------------
(* The queue of batches waiting to be written again.  Entries are records    *)
(* with a field n which numbers them in the order in which they were added.  *)
EXTENDS Naturals, Sequences
Oldest(q) == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i].n <= q[j].n
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* A new batch displaces the oldest one if there is no room.                 *)
Added(q, x, max) == Append(IF Len(q) >= max THEN Without(q, Oldest(q)) ELSE q, x)
(* After a temporary failure the others come first.                          *)
Cycled(q) == Append(Tail(q), Head(q))
=============================================================================
