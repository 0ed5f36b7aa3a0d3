--------------------------- MODULE TraceCounters ---------------------------
(* Outcomes of threads using real counters at the same time: for each counter *)
(* there must be an order of the operations that explains every result.      *)
EXTENDS TraceBase, Dec, FiniteSets
ASSUME InitProgress
TraceInit == l = 1
RECURSIVE Ordered(_, _, _)
Ordered(q, x, final) ==
  IF \A t \in DOMAIN q : q[t] = <<>> THEN final = x
  ELSE \E t \in DOMAIN q : /\ q[t] # <<>>
         /\ LET o == Head(q[t])
                y == IF o.op = "inc" THEN Add(x, "1") ELSE IF o.op = "max" /\ Lt(x, o.arg) THEN o.arg ELSE x
            IN  o.res = y /\ Ordered([q EXCEPT ![t] = Tail(@)], y, final)
Outcome == /\ Is("outcome") /\ Advance
           /\ Req("no order of the operations explains the results", Ordered(Ev.threads, Ev.start, Ev.final), Ev)
Snap == /\ Is("snap") /\ Advance
        /\ Eq("counters of a snapshot", {Ev.names[i] : i \in 1..Len(Ev.names)}, {Ev.got[i] : i \in 1..Len(Ev.got)})
        /\ Eq("number of counters in a snapshot", Len(Ev.names), Len(Ev.got))
TraceNext == Outcome \/ Snap
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
