---------------------------- MODULE TraceListener ----------------------------
(* Recorded executions of a real listener.  Units (datagrams or request      *)
(* bodies) are owed from the moment their sending begins; published lines    *)
(* must be those of owed units, each unit once and contiguously, in order.   *)
EXTENDS TraceBase, ListenerRules, FiniteSets
ASSUME InitProgress
VARIABLES conf,   \* configuration of the scenario
          owed,   \* units not yet (wholly) published
          cur,    \* the unit whose lines must come next, 0 if any may
          n,      \* lines of the current message already explained
          got     \* units which ended in the current (or last) message, in order
vars == <<l, conf, owed, cur, n, got>>

TraceInit == l = 1 /\ conf = <<>> /\ owed = {} /\ cur = 0 /\ n = 0 /\ got = <<>>
Start == Is("start") /\ Advance /\ conf' = Ev /\ owed' = {} /\ cur' = 0 /\ n' = 0 /\ got' = <<>>

Terminated(ls) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.nl = TRUE]]
Sum(f(_), k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f(i) + S(i - 1) IN S(k)

(* A unit starts to be sent.                                                 *)
Begin ==
  /\ Is("begin") /\ Advance
  /\ LET ls == TLCEval(IF conf.kind = "udp" THEN Terminated(Ev.lines)
                       ELSE IF IsNanos(Ev.prec) THEN Ev.lines ELSE ConvertAll(Ev.lines, Ev.prec, 1))
         u == [id |-> Ev.id, lines |-> ls, part |-> FALSE, acked |-> FALSE,
               after |-> {v.id : v \in {w \in owed : w.acked}},
               loose |-> conf.kind # "udp" /\ ~IsNanos(Ev.prec),
               w |-> IF conf.kind = "udp" \/ IsNanos(Ev.prec) THEN 1 ELSE Len(ls),
               b |-> Sum(LAMBDA i : LineSize(ls[i]), Len(ls)),
               open |-> ls # <<>> /\ ~ls[Len(ls)].nl, t0 |-> Ev.t, t1 |-> Ev.t]
     IN  owed' = IF ls = <<>> THEN owed ELSE owed \cup {u}
  /\ UNCHANGED <<conf, cur, n, got>>

(* The listener has confirmed a unit (or the datagram has been sent).        *)
Mark(id, f(_)) == owed' = {IF u.id = id THEN f(u) ELSE u : u \in owed}
Ack == /\ Is("ack") /\ Advance
       /\ Eq("status", 204, Ev.status)
       /\ LET t == Ev.t IN Mark(Ev.id, LAMBDA u : [u EXCEPT !.acked = TRUE, !.t1 = t])
       /\ UNCHANGED <<conf, cur, n, got>>
(* The client went away in the middle of its request.                        *)
Abort == /\ Is("abort") /\ Advance
         /\ Mark(Ev.id, LAMBDA u : [u EXCEPT !.part = TRUE])
         /\ UNCHANGED <<conf, cur, n, got>>

Current == {v \in owed : v.id = cur}
(* A unit that was broken off may end anywhere.                              *)
May(u) == /\ cur = 0 \/ cur = u.id \/ \E v \in Current : v.part
          /\ \A v \in owed : v.id \notin u.after
Line == Ev.lines[n + 1]
IsLast == n + 1 = Len(Ev.lines)
Whole(u) == Published(Head(u.lines), Line)
Cut(u) == /\ IsLast /\ n = 0 /\ Ev.b = BusLimit
          /\ LineSize(Head(u.lines)) > BusLimit
          /\ IsFirstPart(Head(u.lines), Line)
Broken(u) == u.part /\ Line.n = 0 /\ Head(u.lines).n = 0 /\ StartsWith(Head(u.lines).h, Line.h)
Fits(u) == May(u) /\ (Whole(u) \/ Cut(u) \/ Broken(u))

(* One more line of a published message.                                     *)
After(u, ls) ==     \* the rest of unit u is ls
  /\ owed' = ((owed \ {u}) \ Current) \cup (IF ls = <<>> THEN {} ELSE {[u EXCEPT !.lines = ls]})
  /\ cur' = IF ls = <<>> THEN 0 ELSE IF u.loose /\ ~Cut(u) THEN 0 ELSE u.id
  /\ LET g == IF n = 0 THEN <<>> ELSE got IN got' = IF ls = <<>> THEN Append(g, u) ELSE g
Take(u) == IF Whole(u) THEN After(u, Tail(u.lines))
           ELSE IF Cut(u) THEN After(u, <<RestOf(Head(u.lines), Line)>> \o Tail(u.lines))
           ELSE After(u, <<>>)

(* Does the message of the units in g hold exactly what it should? (Only     *)
(* where one client sends one unit after the other.)                         *)
SizeOfFirst(g, k) == Sum(LAMBDA i : g[i].b + (IF g[i].open /\ i < k THEN 1 ELSE 0), k)
Full(g, k) == LimitReached(Sum(LAMBDA i : g[i].w, k), SizeOfFirst(g, k), conf.count, conf.size, MaxDatagram)
Slack == conf.slack     \* as the machine was busy
\* (the UDP listener looks at the age once a second)
Age(c) == c.age + (IF c.kind = "udp" THEN 1000 ELSE 0) + Slack
InTime(g, t) ==
  /\ Req("sent in the middle of a unit", cur' = 0 /\ g # <<>>, <<cur', g>>)
  /\ Req("should have been sent earlier, a limit was reached", \A k \in 1..(Len(g) - 1) : ~Full(g, k), g)
  /\ IF Full(g, Len(g))
     THEN Req("sent too late after a limit was reached", t <= g[Len(g)].t1 + Slack, <<t, g[Len(g)].t1>>)
     ELSE /\ Req("sent before a limit was reached", t >= g[1].t0 + conf.age, <<t, g>>)
          /\ Req("sent too late after its maximum age", t <= g[1].t1 + Age(conf), <<t, g[1].t1>>)

(* Where clients send at the same time: those whose requests are in progress *)
(* may add to a batch that is about to be sent, but nobody sends it early.   *)
First(g, f(_)) == LET S == {f(g[i]) : i \in 1..Len(g)} IN CHOOSE x \in S : \A y \in S : x <= y
Together(g, t) ==
  /\ Req("sent in the middle of a unit", cur' = 0 /\ g # <<>>, <<cur', g>>)
  /\ Req("should have been sent earlier, the limit was reached", Len(g) < conf.count + conf.clients, g)
  /\ \/ Full(g, Len(g))
     \/ Req("sent before a limit was reached", t >= First(g, LAMBDA u : u.t0) + conf.age, <<t, g>>)
  /\ Full(g, Len(g)) \/ Req("sent too late after its maximum age", t <= First(g, LAMBDA u : u.t1) + Age(conf), <<t, g>>)

Out == /\ Is("out") /\ n < Len(Ev.lines)
       /\ n = 0 => Req("message too large for the bus", Ev.b <= BusLimit, Ev.b)
       /\ IF \E u \in owed : Fits(u)
          THEN \E u \in owed : Fits(u) /\ Take(u)
          ELSE Req("published but not owed (or torn, joined, duplicated or out of order)", FALSE,
                   <<Line, "unit in progress", cur, "owed", {[id |-> u.id, next |-> Head(u.lines)] : u \in owed}>>)
       /\ IF IsLast
          THEN /\ conf.strict => InTime(got', Ev.t)
               /\ conf.gang => Together(got', Ev.t)
               /\ n' = 0 /\ Advance
          ELSE n' = n + 1 /\ UNCHANGED l
       /\ UNCHANGED conf
(* Pieces of one batch hold as many lines as fit: where each unit is a batch *)
(* of its own, the message after one that ends within a unit starts with a   *)
(* line that did not fit.                                                    *)
Packed == (Is("out") /\ n = 0 /\ conf.single /\ cur # 0 /\ l > 1) =>
            Req("the first line would have fitted into the message before",
                Trace[l - 1].e = "out" =>
                (Trace[l - 1].b + LineSize(Ev.lines[1]) > BusLimit \/ ~Trace[l - 1].lines[Len(Trace[l - 1].lines)].nl),
                Trace[l - 1].b)

RECURSIVE InOrder(_, _)
InOrder(us, acc) == IF us = {} THEN acc
  ELSE LET u == CHOOSE x \in us : \A y \in us : x.id <= y.id IN InOrder(us \ {u}, Append(acc, u))
End == /\ Is("end") /\ Advance
       /\ IF conf.strict
          THEN LET p == InOrder(owed, <<>>) IN
               /\ Req("not sent though a limit was reached", \A k \in 1..Len(p) : ~Full(p, k), p)
               /\ IF p = <<>> THEN TRUE ELSE Req("not sent at its maximum age", Ev.t <= p[1].t1 + Age(conf), <<Ev.t, p>>)
          ELSE IF conf.gang
          THEN LET p == InOrder(owed, <<>>) IN
               /\ Req("not sent though a limit was reached", ~Full(p, Len(p)), p)
               /\ IF p = <<>> THEN TRUE ELSE Req("not sent at its maximum age", Ev.t <= First(p, LAMBDA u : u.t1) + Age(conf), <<Ev.t, p>>)
          ELSE Req("never published", \A u \in owed : u.part, owed)
       /\ conf.metrics =>
            /\ Eq("received", Ev.units, Ev.received)
            /\ Eq("sent", Ev.messages, Ev.sent)
            /\ Eq("read_errors", Ev.aborts, Ev.errors)
            /\ Eq("failed_nats_publish", 0, Ev.failed)
       /\ UNCHANGED <<conf, owed, cur, n, got>>

TraceNext == Start \/ Begin \/ Ack \/ Abort \/ (Packed /\ Out) \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
