----------------------------- MODULE TraceWriter -----------------------------
(* Recorded executions of a real writer: the messages it is sent ("in"), the *)
(* requests it makes ("req") and how they end ("ans").  Requests with data   *)
(* not seen before are first attempts: their lines must be those of messages *)
(* not written so far, in order.  Other requests are further attempts.       *)
EXTENDS TraceBase, ListenerRules, Rules, FiniteSets
ASSUME InitProgress
VARIABLES conf,
          owed,    \* messages not (wholly) attempted: [id, subj, lines, part, w, b, at]
          cur,     \* the message whose lines must come next, 0 if any may
          n,       \* lines of the current request already explained
          used,    \* messages that ended in the current request, in order
          batch,   \* strict: messages of the unfinished batch written so far
          room,    \* strict: bytes of the request before in this batch, 0 if none
          state,   \* first attempts: request -> [busy, res, tries]
          again,   \* further attempts in progress: request -> first attempt
          count, fails,    \* attempts, failed attempts
          ins,     \* messages published
          more, free
vars == <<l, conf, owed, cur, n, used, batch, room, state, again, count, fails, ins, more, free>>
wvars == <<owed, cur, n, used, batch, room, ins, more>>

TraceInit == /\ l = 1 /\ conf = <<>> /\ owed = {} /\ cur = 0 /\ n = 0 /\ used = <<>> /\ batch = <<>> /\ room = 0
             /\ state = <<>> /\ again = <<>> /\ count = 0 /\ fails = 0 /\ ins = 0 /\ more = FALSE /\ free = 0
Start == /\ Is("start") /\ Advance /\ conf' = Ev /\ owed' = {} /\ cur' = 0 /\ n' = 0 /\ used' = <<>> /\ batch' = <<>>
         /\ room' = 0 /\ state' = <<>> /\ again' = <<>> /\ count' = 0 /\ fails' = 0 /\ ins' = 0 /\ more' = FALSE /\ free' = 0

Sum(f(_), k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f(i) + S(i - 1) IN S(k)
RECURSIVE Keep(_, _)
Keep(e, i) == IF i > Len(e.lines) THEN <<>>
              ELSE (IF Lookup(conf.rules, e.text[i]) > 0 THEN <<e.lines[i]>> ELSE <<>>) \o Keep(e, i + 1)
Wanted(e) == TLCEval(IF conf.rules = <<>> THEN e.lines ELSE Keep(e, 1))

In == /\ Is("in") /\ Advance
      /\ LET ls == Wanted(Ev)
             m == [id |-> Ev.id, subj |-> Ev.subj, lines |-> ls, part |-> FALSE, at |-> Ev.t,
                   w |-> IF conf.rules = <<>> THEN 1 ELSE Len(ls), b |-> Sum(LAMBDA i : LineSize(ls[i]), Len(ls))]
         IN  owed' = IF ls = <<>> THEN owed ELSE owed \cup {m}
      /\ ins' = ins + 1
      /\ UNCHANGED <<conf, cur, n, used, batch, room, state, again, count, fails, more, free>>

Proper == /\ Eq("method", "POST", Ev.method) /\ Eq("path", "/write", Ev.path) /\ Eq("database", conf.db, Ev.db)
          /\ Eq("precision", "ns", Ev.precision)
          /\ Eq("authentication", conf.user # "", Ev.auth) /\ Eq("user", conf.user, Ev.user)
          /\ Eq("password", IF conf.user = "" THEN "" ELSE conf.pass, Ev.pass)
          /\ Req("empty request", Ev.lines # <<>>, 0)

-----------------------------------------------------------------------------
(* First attempts.                                                           *)
Parts == {m \in owed : m.part}
Line == Ev.lines[n + 1]
IsLast == n + 1 = Len(Ev.lines)
(* Messages of one subject are taken one after the other by one worker.      *)
Next2(m) == IF conf.workers = 1 THEN \A o \in owed : o.subj = m.subj => o.id >= m.id
            ELSE n > 0 => \A i \in 1..Len(used) : used[i].subj = m.subj => used[i].id < m.id
May(m) == IF cur # 0 THEN m.id = cur
          ELSE IF n = 0 /\ m.part THEN TRUE
          ELSE /\ ~m.part /\ Next2(m)
               /\ n = 0 => Cardinality(Parts) < conf.workers
Whole(m) == Head(m.lines) = Line
Cut(m) == /\ IsLast /\ n = 0 /\ Ev.b = conf.size
          /\ LineSize(Head(m.lines)) > conf.size
          /\ IsFirstPart(Head(m.lines), Line)
Fits(m) == May(m) /\ (Whole(m) \/ Cut(m))

(* The message of which the request has written everything up to (not        *)
(* including) ls.                                                            *)
After(m, ls) ==
  /\ owed' = (owed \ {m}) \cup (IF ls = <<>> THEN {} ELSE {[m EXCEPT !.lines = ls, !.part = TRUE]})
  /\ cur' = IF ls = <<>> \/ IsLast THEN 0 ELSE m.id
  /\ LET u == IF n = 0 THEN <<>> ELSE used IN used' = IF ls = <<>> THEN Append(u, m) ELSE u
  /\ (IsLast /\ ls # <<>>) =>
        Req("the next line would have fitted into the request", Cut(m) \/ Ev.b + LineSize(Head(ls)) > conf.size, <<Ev.b, Head(ls)>>)
Take(m) == IF Whole(m) THEN After(m, Tail(m.lines)) ELSE After(m, <<RestOf(Head(m.lines), Line)>> \o Tail(m.lines))

(* Strict: one worker, one subject, InfluxDB is well: is this what the       *)
(* limits ask for?                                                           *)
Slack == conf.slack     \* as the machine was busy
Full(g, k) == Sum(LAMBDA i : g[i].w, k) >= conf.count \/ Sum(LAMBDA i : g[i].b, k) >= conf.size
Max(x, y) == IF x > y THEN x ELSE y
Close(g) ==
  /\ Req("should have been written earlier, a limit was reached", \A k \in 1..(Len(g) - 1) : ~Full(g, k), g)
  /\ IF room # 0
     THEN Req("written in parts though no limit was reached", Sum(LAMBDA i : g[i].b, Len(g)) > conf.size, g)
     ELSE TRUE
  /\ IF Full(g, Len(g))
     THEN Req("written too late after a limit was reached", Ev.t <= Max(g[Len(g)].at, free) + Slack, <<Ev.t, g[Len(g)].at>>)
     ELSE /\ Req("written before a limit was reached", Ev.t >= g[1].at + conf.age, <<Ev.t, g>>)
          /\ Req("written too late after its maximum age", Ev.t <= Max(g[1].at + conf.age + 1000, free) + Slack, <<Ev.t, g[1].at>>)
Strictly(g, whole) ==      \* g: messages of the batch which are written now
  \/ whole /\ batch' = <<>> /\ room' = 0 /\ more' = FALSE
     /\ Close(g)
  \/ batch' = g /\ room' = Ev.b /\ more' = TRUE      \* there is more of the batch to come

(* A part of a very long line may look like another one.                     *)
Middle == Len(Ev.lines) = 1
First == /\ Is("req") /\ (Ev.same = 0 \/ Middle) /\ n < Len(Ev.lines)
         /\ n = 0 => /\ Proper
                     /\ Req("request larger than the maximum size", Ev.b <= conf.size, Ev.b)
                     /\ more => Req("the first line would have fitted into the request before",
                                    Cardinality(Parts) > 0 \/ room + LineSize(Ev.lines[1]) > conf.size, room)
         /\ IF \E m \in owed : Fits(m) THEN \E m \in owed : Fits(m) /\ Take(m)
            ELSE Req("written but not owed (or altered, torn, joined, duplicated or out of order)", FALSE,
                     <<Line, "message in progress", cur, "owed", {[id |-> m.id, part |-> m.part, next |-> Head(m.lines)] : m \in owed}>>)
         /\ IF IsLast
            THEN /\ n' = 0 /\ Advance /\ count' = count + 1
                 /\ state' = state @@ (Ev.i :> [busy |-> TRUE, res |-> IF Ev.hang THEN "temp" ELSE "", tries |-> 0, hang |-> Ev.hang])
                 /\ IF conf.strict THEN Strictly(batch \o used', \A m \in owed' : ~m.part)
                    ELSE UNCHANGED <<batch, room, more>>
            ELSE n' = n + 1 /\ UNCHANGED <<l, count, state, batch, room, more>>
         /\ UNCHANGED <<conf, ins, again, fails, free>>

-----------------------------------------------------------------------------
(* Further attempts are for data that was not accepted so far.               *)
Again == /\ Is("req") /\ Ev.same # 0 /\ Advance
         /\ Proper
         /\ Req("written twice", conf.retries > 0, Ev)
         /\ Req("written again while it is being written", ~state[Ev.same].busy \/ state[Ev.same].hang, Ev)
         /\ Req("written again although it was accepted or refused", state[Ev.same].res \in {"temp", "perm"}, <<Ev, state[Ev.same]>>)
         /\ Req("more further attempts at a time than workers", Cardinality({i \in DOMAIN again : ~state[again[i]].hang}) < conf.workers, Ev)
         /\ state' = [state EXCEPT ![Ev.same].busy = TRUE, ![Ev.same].hang = Ev.hang, ![Ev.same].res = IF Ev.hang THEN "temp" ELSE @]
         /\ again' = again @@ (Ev.i :> Ev.same)
         /\ count' = count + 1
         /\ UNCHANGED <<conf, wvars, fails, free>>
Ans == /\ Is("ans") /\ Advance
       /\ Req("InfluxDB was waited for longer than write_timeout", Ev.hung <= conf.timeout + Slack, <<Ev.hung, conf.timeout>>)
       /\ LET further == Ev.i \in DOMAIN again
              d == IF further THEN again[Ev.i] ELSE Ev.i IN
          /\ state' = [state EXCEPT ![d] = [busy |-> FALSE, hang |-> FALSE, tries |-> @.tries + 1,
                         res |-> IF further /\ Ev.res = "perm" THEN "refused" ELSE Ev.res]]
          /\ again' = [i \in DOMAIN again \ {Ev.i} |-> again[i]]
       /\ fails' = fails + (IF Ev.res = "ok" THEN 0 ELSE 1)
       /\ free' = Ev.t
       /\ UNCHANGED <<conf, wvars, count>>

RECURSIVE InOrder(_, _)
InOrder(us, acc) == IF us = {} THEN acc
  ELSE LET u == CHOOSE x \in us : \A y \in us : x.id <= y.id IN InOrder(us \ {u}, Append(acc, u))
End == /\ Is("end") /\ Advance
       /\ IF conf.strict
          THEN LET p == batch \o InOrder(owed, <<>>) IN
               /\ Req("in the middle of a batch", room = 0, p)
               /\ Req("not written though a limit was reached", \A k \in 1..Len(p) : ~Full(p, k), p)
               /\ IF p = <<>> THEN TRUE ELSE Req("not written at its maximum age", Ev.t <= Max(p[1].at + conf.age + 1000, free) + Slack, <<Ev.t, p>>)
          ELSE Req("never written", owed = {}, owed)
       /\ Req("it goes on writing", Ev.quiet, Ev)
       /\ Req("no metrics", Ev.rounds > 0, Ev)
       /\ Req("connections to InfluxDB pile up", Ev.conns <= 4 * conf.workers + 8, Ev)
       /\ Ev.stable => /\ Eq("write_requests", count, Ev.write_requests)
                       /\ Eq("failed_writes", fails, Ev.failed_writes)
                       /\ Eq("received", ins, Ev.received)
       /\ UNCHANGED <<conf, owed, cur, n, used, batch, room, state, again, count, fails, ins, more, free>>
TraceNext == Start \/ In \/ First \/ Again \/ Ans \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
