----------------------------- MODULE TraceRetry ------------------------------
(* Recorded executions of a writer with one worker whose batches are single  *)
(* messages: which further attempts it makes, and when.  The queue is that   *)
(* of the design (Writer); when exactly the worker looks at it is not        *)
(* visible, so additions and expiries are steps of the specification alone.  *)
EXTENDS TraceBase, RetryQueue, FiniteSets
ASSUME InitProgress
VARIABLES conf,
          sent,     \* messages published so far
          news,     \* first attempts so far
          busy1,    \* first attempt in progress (request) or 0
          hand,     \* failed first attempts still to be added: [d, at, perm]
          q,        \* waiting: [d, n, at]
          busy,     \* the piece of the further attempt in progress or 0
          req,      \* ... its request
          since,    \* earliest start of the running interval
          count, fails, seq,
          hangs,    \* requests left without answer: request -> when it came
          late      \* ... those given up by the writer before InfluxDB noticed
hvars == <<hangs, late>>
vars == <<l, conf, sent, news, busy1, hand, q, busy, req, since, count, fails, seq, hangs, late>>

Zero == sent' = <<>> /\ news' = 0 /\ busy1' = 0 /\ hand' = <<>> /\ q' = <<>> /\ busy' = 0 /\ req' = 0 /\ since' = 0
        /\ count' = 0 /\ fails' = 0 /\ seq' = 0 /\ hangs' = <<>> /\ late' = {}
TraceInit == l = 1 /\ conf = <<>> /\ sent = <<>> /\ news = 0 /\ busy1 = 0 /\ hand = <<>> /\ q = <<>> /\ busy = 0 /\ req = 0
             /\ since = 0 /\ count = 0 /\ fails = 0 /\ seq = 0 /\ hangs = <<>> /\ late = {}
Slack == conf.slack     \* as the machine was busy
Max(x, y) == IF x > y THEN x ELSE y

(* Nothing that is due has been forgotten.                                   *)
Prompt ==
  /\ busy = 0 /\ q # <<>> =>
       Req("a further attempt is overdue", Ev.t <= since + conf.interval + Slack, <<"waiting", q, "since", since>>)
  /\ busy = 0 /\ hand # <<>> => Ev.t <= Max(hand[1].at, since) + Slack      \* added, or dropped, before long

Start == Is("start") /\ Advance /\ conf' = Ev /\ Zero
In == /\ Is("in") /\ Advance /\ Prompt
      /\ sent' = Append(sent, Ev.lines)
      /\ UNCHANGED <<conf, news, busy1, hand, q, busy, req, since, count, fails, seq, hvars>>
Hanging == hangs' = IF Ev.hang THEN hangs @@ (Ev.i :> Ev.t) ELSE hangs
First == /\ Is("req") /\ Ev.same = 0 /\ Advance /\ Prompt
         /\ Req("more batches than messages", news < Len(sent), Ev)
         /\ Eq("batch", sent[news + 1], Ev.lines)
         /\ Req("first attempt while another is in progress", busy1 = 0, <<Ev.i, busy1>>)
         /\ busy1' = Ev.i /\ news' = news + 1 /\ count' = count + 1
         /\ Hanging
         /\ UNCHANGED <<conf, sent, hand, q, busy, req, since, fails, seq, late>>
FirstEnds(res) ==
            /\ busy1' = 0
            /\ fails' = fails + (IF res = "ok" THEN 0 ELSE 1)
            /\ hand' = IF res = "ok" \/ conf.retries = 0 THEN hand
                       ELSE Append(hand, [d |-> busy1, at |-> Ev.t, perm |-> res = "perm"])
            /\ UNCHANGED <<conf, sent, news, q, busy, req, since, count, seq, hangs>>
Patient == Req("InfluxDB was waited for longer than write_timeout", Ev.hung <= conf.timeout + Slack, <<Ev.hung, conf.timeout>>)
FirstEnd == Is("ans") /\ Ev.i = busy1 /\ Advance /\ Prompt /\ Patient /\ FirstEnds(Ev.res) /\ UNCHANGED late
(* InfluxDB notices a little later than the writer that it has given up.     *)
GivenUp(i) == Is("req") /\ i \in DOMAIN hangs /\ i \notin late /\ Ev.t >= hangs[i] + conf.timeout - 200
FirstLate == busy1 # 0 /\ GivenUp(busy1) /\ FirstEnds("temp") /\ late' = late \cup {busy1} /\ UNCHANGED l
LateEnd == Is("ans") /\ Ev.i \in late /\ Advance /\ Patient
           /\ UNCHANGED <<conf, sent, news, busy1, hand, q, busy, req, since, count, fails, seq, hvars>>
(* Silent steps happen before the next event.                                *)
Add == /\ More /\ busy = 0 /\ hand # <<>>
       /\ q' = Added(q, [d |-> Head(hand).d, n |-> seq, at |-> Max(Head(hand).at, since)], conf.retries)
       /\ since' = IF q = <<>> THEN Max(Head(hand).at, since) ELSE since
       /\ hand' = Tail(hand) /\ seq' = seq + 1
       /\ UNCHANGED <<l, conf, sent, news, busy1, busy, req, count, fails, hvars>>
(* A batch refused at the first attempt need not be tried again.             *)
Forget == /\ More /\ hand # <<>> /\ Head(hand).perm
          /\ hand' = Tail(hand)
          /\ UNCHANGED <<l, conf, sent, news, busy1, q, busy, req, since, count, fails, seq, hvars>>
MayBeOld(x, t) == t >= x.at + conf.ttl
TooOld(x, t) == t > x.at + conf.ttl + 1000
Expire == /\ More /\ busy = 0
          /\ \E i \in 1..Len(q) : MayBeOld(q[i], Ev.t) /\ q' = Without(q, i)
          /\ UNCHANGED <<l, conf, sent, news, busy1, hand, busy, req, since, count, fails, seq, hvars>>
Again == /\ Is("req") /\ Ev.same # 0 /\ Advance
         /\ Req("no further attempts are configured", conf.retries > 0, Ev)
         /\ Req("one further attempt at a time", busy = 0, <<Ev, "in progress", busy>>)
         /\ Req("not the batch whose turn it is", q # <<>> /\ Head(q).d = Ev.same, <<Ev.same, "waiting", q>>)
         /\ Req("less than an interval since the last attempt", Ev.t >= since + conf.interval - 60, <<Ev.t, since>>)
         /\ Prompt
         /\ Req("expired", Head(q).at + conf.ttl + 1000 >= Ev.t, <<Ev.t, Head(q)>>)
         /\ busy' = Ev.same /\ req' = Ev.i /\ count' = count + 1
         /\ Hanging
         /\ UNCHANGED <<conf, sent, news, busy1, hand, q, since, fails, seq, late>>
AgainEnds(res) ==
            /\ q' = IF res = "temp" THEN Cycled(q) ELSE Tail(q)
            /\ busy' = 0 /\ req' = 0 /\ since' = Ev.t
            /\ fails' = fails + (IF res = "ok" THEN 0 ELSE 1)
            /\ UNCHANGED <<conf, sent, news, busy1, hand, count, seq, hangs>>
AgainEnd == Is("ans") /\ busy # 0 /\ Ev.i = req /\ Advance /\ Patient /\ AgainEnds(Ev.res) /\ UNCHANGED late
AgainLate == busy # 0 /\ GivenUp(req) /\ AgainEnds("temp") /\ late' = late \cup {req} /\ UNCHANGED l
End == /\ Is("end") /\ Advance /\ Prompt
       /\ Req("a batch was never written", news = Len(sent), news)
       /\ Req("it goes on writing", Ev.quiet, Ev)
       /\ Req("no metrics", Ev.rounds > 0, Ev)
       /\ Req("connections to InfluxDB pile up", Ev.conns <= 12, Ev)
       /\ Ev.stable => Eq("write_requests", count, Ev.write_requests) /\ Eq("failed_writes", fails, Ev.failed_writes)
       /\ UNCHANGED <<conf, sent, news, busy1, hand, q, busy, req, since, count, fails, seq, hvars>>
TraceNext == Start \/ In \/ First \/ FirstEnd \/ FirstLate \/ LateEnd \/ AgainLate \/ Add \/ Forget \/ Expire \/ Again \/ AgainEnd \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
