----------------------------- MODULE TraceFleet -----------------------------
(* Recorded executions of several real components on one bus.  Judged are:   *)
(*  - where each marked line turns up, and in which form (C28-C31),          *)
(*  - what the probes answer (C23),                                          *)
(*  - what the components report about themselves (C22),                     *)
(*  - stopping: that it ends, and that nothing is left of it (C31).          *)
(* A scenario is a sequence of phases, each ending when everything sent has  *)
(* settled; what must and what may turn up is worked out for a whole phase.  *)
EXTENDS TraceBase, Rules, Metrics, FiniteSetsExt
ASSUME InitProgress
VARIABLES mem,    \* member -> [c |-> its start event, st, hist |-> its states, ...]
          sent,   \* what was sent in this phase
          gots,   \* what turned up in this phase
          asked,  \* probe requests in progress
          quiet,  \* everything has been stopped a while ago
          rep,    \* member -> what it has reported
          work    \* what there was to do, and what came of it
vars == <<l, mem, sent, gots, asked, quiet, rep, work>>
NoWork == [fed |-> <<>>, given |-> <<>>, msgs |-> <<>>, lines |-> <<>>, bad |-> <<>>, big |-> <<>>, limit |-> 0]
TraceInit == l = 1 /\ mem = <<>> /\ sent = <<>> /\ gots = <<>> /\ asked = <<>> /\ quiet = FALSE /\ rep = <<>> /\ work = NoWork

Fleet == /\ Is("fleet") /\ Advance
         /\ mem' = <<>> /\ sent' = <<>> /\ gots' = <<>> /\ asked' = <<>> /\ quiet' = FALSE /\ rep' = <<>> /\ work' = [NoWork EXCEPT !.limit = Ev.payload]

Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Bump(f, k, n) == Put(f, k, At(f, k) + n)
Sum(S, Val(_)) == MapThenSumSet(Val, S)
RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NatFrom(s, i + 1, 10 * acc + DigitVal[Chr(s, i)])
ToNat(s) == NatFrom(s, 1, 0)

-----------------------------------------------------------------------------
(* Members come and go.                                                      *)
Begin == /\ Is("start") /\ Advance /\ quiet' = FALSE
         /\ LET i == Ev.i
                h == IF i \in DOMAIN mem THEN mem[i].hist ELSE <<"off">> IN
            /\ mem' = Put(mem, i, [c |-> Ev, st |-> "starting", hist |-> Append(h, "starting"), left |-> i \in DOMAIN mem /\ mem[i].left, apart |-> FALSE, known |-> TRUE,
                                   since |-> Ev.t, down |-> 0, alive |-> FALSE, ready |-> FALSE, off |-> FALSE])
            /\ rep' = Put(rep, i, [rounds |-> 0, t |-> 0, stamp |-> "0", owed |-> {}, last |-> <<>>])
         /\ UNCHANGED <<sent, gots, asked, work>>
Change(i, st) == [mem EXCEPT ![i].st = st, ![i].hist = Append(@, st)]
Begun == /\ Is("started") /\ Advance
         /\ Eq("the component starts", TRUE, Ev.ok)
         /\ mem' = [Change(Ev.i, "up") EXCEPT ![Ev.i].since = Ev.t]
         /\ UNCHANGED <<sent, gots, asked, quiet, rep, work>>
ReadySeen == /\ Is("readyseen") /\ Advance
             /\ Eq("it becomes ready", TRUE, Ev.ok)
             /\ mem' = [mem EXCEPT ![Ev.i].ready = TRUE]
             /\ UNCHANGED <<sent, gots, asked, quiet, rep, work>>

Slack == 4000
(* A component reports from start to end, at its interval.                   *)
Reporting(i, t) ==
  (i \in DOMAIN rep /\ Ev.mon /\ mem[i].c.mode # "monitor" /\ mem[i].st = "up") =>
    /\ Req("no report for a while", t - (IF rep[i].rounds = 0 THEN mem[i].since ELSE rep[i].t) <= mem[i].c.stats + mem[i].c.slack, <<mem[i].c.name, rep[i].t, t>>)
    /\ Req("too few reports", (3 * rep[i].rounds * mem[i].c.stats) \div 2 + mem[i].c.slack >= t - mem[i].since, <<mem[i].c.name, rep[i].rounds, t - mem[i].since>>)
End == /\ Is("stop") /\ Advance
       /\ Reporting(Ev.i, Ev.t)
       /\ mem' = [Change(Ev.i, "stopping") EXCEPT ![Ev.i].left = TRUE, ![Ev.i].down = Ev.t]
       /\ UNCHANGED <<sent, gots, asked, quiet, rep, work>>
Ended == /\ Is("stopped") /\ Advance
         /\ Req("stopping takes too long", Ev.t - mem[Ev.i].down <= 2 * mem[Ev.i].c.timeout + Slack, <<mem[Ev.i].c.mode, Ev.t - mem[Ev.i].down>>)
         /\ mem' = Change(Ev.i, "stopped")
         /\ UNCHANGED <<sent, gots, asked, quiet, rep, work>>
\* Only now does the bus know that the component is gone; until then it may give it messages.
Forgotten == /\ Is("forgotten") /\ Advance
             /\ mem' = [mem EXCEPT ![Ev.i].known = FALSE]
             /\ UNCHANGED <<sent, gots, asked, quiet, rep, work>>
Never == /\ (Is("hung") \/ Is("died"))
         /\ Req("stopping never ends, or the process died", FALSE, Ev) /\ UNCHANGED vars
Leaks == /\ Is("leaks") /\ Advance
         /\ Eq("goroutines left behind", <<>>, Ev.goroutines)
         /\ Eq("connections left behind", 0, Ev.clients)
         /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep, work>>
(* A metric sent to a monitor that is ready.                                 *)
Shown == /\ Is("shown") /\ Advance
         /\ (Ev.i \in DOMAIN mem /\ (mem[Ev.i].st = "up" \/ mem[Ev.i].ready)) => Eq("the metric is served", TRUE, Ev.ok)
         /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep, work>>
(* The bus can't be reached by a member; later it can.                       *)
Away == /\ Is("away") /\ Advance
        /\ mem' = [mem EXCEPT ![Ev.i].apart = TRUE, ![Ev.i].left = TRUE]
        /\ UNCHANGED <<sent, gots, asked, quiet, rep, work>>
Resumed == /\ Is("back") /\ Advance
           /\ Eq("it goes on once the bus is back", TRUE, Ev.ok)
           /\ mem' = [mem EXCEPT ![Ev.i].apart = FALSE]
           /\ UNCHANGED <<sent, gots, asked, quiet, rep, work>>
Reports == /\ Is("reports") /\ Advance
           /\ Eq("it goes on reporting", TRUE, Ev.ok)
           /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep, work>>
Mark == Is("mark") /\ Advance /\ quiet' = TRUE /\ UNCHANGED <<mem, sent, gots, asked, rep, work>>

-----------------------------------------------------------------------------
(* What is sent, and what turns up.                                          *)
Gone == {i \in DOMAIN mem : mem[i].st = "stopped" /\ ~mem[i].known}
Up == {i \in DOMAIN mem : ~mem[i].apart /\ (mem[i].st = "up" \/ (mem[i].st = "starting" /\ mem[i].ready))}
(* What a member is given while it is apart is passed on when it returns.     *)
Returning == /\ Is("returning") /\ Advance
             /\ sent' = TLCEval([k \in 1..Len(sent) |-> IF sent[k].via = Ev.i /\ sent[k].held THEN [sent[k] EXCEPT !.up = Up \cup {Ev.i}, !.held = FALSE] ELSE sent[k]])
             /\ UNCHANGED <<mem, gots, asked, quiet, rep, work>>
Send == /\ Is("sent") /\ Advance
        /\ sent' = sent \o TLCEval([k \in 1..Len(Ev.lines) |-> [id |-> Ev.lines[k].id, v |-> Ev.lines[k].text, to |-> Ev.to, ns |-> Ev.ns,
                              via |-> IF Ev.by = "pub" THEN 0 ELSE Ev.i, up |-> Up,
                              held |-> Ev.by # "pub" /\ Ev.i \in DOMAIN mem /\ mem[Ev.i].apart /\ mem[Ev.i].st = "up", gone |-> Gone]])
        /\ UNCHANGED <<mem, gots, asked, quiet, rep, work>>
Fed == /\ Is("fed") /\ Advance
       /\ work' = [work EXCEPT !.fed = Bump(@, IF Ev.by = "pub" THEN <<"bus", Ev.to>> ELSE <<"in", Ev.i>>, Ev.n),
                                !.big = IF work.limit > 0 /\ Ev.b > work.limit THEN Bump(@, <<"in", Ev.i>>, Ev.n) ELSE @,
                                !.given = IF Ev.by = "pub" THEN Bump(@, Ev.to, Ev.lines) ELSE @]
       /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep>>
Got == /\ (Is("got") \/ Is("other")) /\ Advance
       /\ Req("something is still published or written", ~quiet, Ev)
       /\ gots' = IF Ev.e = "got" THEN gots \o TLCEval([k \in 1..Len(Ev.lines) |-> [p |-> Ev.where, id |-> Ev.lines[k].id, v |-> Ev.lines[k].text]]) ELSE gots
       /\ work' = [work EXCEPT !.msgs = Bump(@, Ev.where, 1), !.lines = Bump(@, Ev.where, Ev.n), !.bad = Bump(@, Ev.where, IF Ev.failed THEN 1 ELSE 0)]
       /\ UNCHANGED <<mem, sent, asked, quiet, rep>>
Unsent == Is("unsent") /\ Advance /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep, work>>

Of(mode) == {i \in DOMAIN mem : mem[i].c.mode = mode}
Reads(i, s) == \E k \in 1..Len(mem[i].c.subjects) : mem[i].c.subjects[k] = s
(* Those which share the messages of a subject: all filters; writers of one  *)
(* group.  Everyone else gets each message.                                  *)
Group(i) == IF mem[i].c.mode = "filter" THEN <<"filter">>
            ELSE IF mem[i].c.mode = "writer" /\ mem[i].c.group # "" THEN <<"writer", mem[i].c.group>>
            ELSE <<"alone", i>>
Possible(x, i) == ~(i \in x.gone /\ mem[i].st = "stopped")
Groups(x, s, mode) == {{j \in Of(mode) : Reads(j, s) /\ Group(j) = Group(i) /\ Possible(x, j)} : i \in {i \in Of(mode) : Reads(i, s) /\ Possible(x, i)}}
Certain(x, g) == (\E i \in g : i \in x.up) /\ (\A i \in g : ~mem[i].left)
First(g) == mem[CHOOSE i \in g : TRUE].c

(* A group whose members write to several databases counts as one place.     *)
DbsOf(i) == {mem[j].c.db : j \in {j \in Of("writer") : Group(j) = Group(i)}}
Class(p) == LET of == {i \in Of("writer") : p \in DbsOf(i)} IN
            IF of = {} THEN p ELSE LET d == DbsOf(CHOOSE i \in of : TRUE) IN CHOOSE q \in d : TRUE

Body(v) == LET s == TrimNL(v)
               k == LastIndexIn(s, {" "}, Len(s))
           IN IF k > 1 /\ IndexIn(s, {" "}, 1) < k THEN UpTo(s, k - 1) ELSE s
RECURSIVE Flow(_, _, _, _, _, _)
RECURSIVE FlowAll(_, _, _)
(* What comes of line v on subject s.  loose: the time of it is not known.   *)
Flow(x, s, v, lo, loose, depth) ==
  LET owed(p, c) == [p |-> p, id |-> x.id, v |-> v, lo |-> IF c THEN lo ELSE 0, loose |-> loose]
      filters == TLCEval(Groups(x, s, "filter"))
      writers == TLCEval({g \in Groups(x, s, "writer") : First(g).rules = <<>> \/ (WellFormed(v) /\ FirstMatch(First(g).rules, v, 1) # 0)})
      downs == Groups(x, s, "downsampler")
      on == {<<"filter", g>> : g \in filters} \cup {<<"downsampler", g>> : g \in downs}
      next(o) == LET c == First(o[2])
                     low == IF Certain(x, o[2]) THEN lo ELSE 0 IN
                 IF o[1] = "downsampler" THEN [s |-> s \o c.suffix, v |-> v, lo |-> low, loose |-> TRUE, go |-> TRUE]
                 ELSE LET r == Route(c.rules, v)
                          w == Window(v, c.delta, x.ns, Add(x.ns, "20000000000")) IN
                      IF r < 0 \/ w = "out" THEN [go |-> FALSE]
                      ELSE [s |-> IF r = 0 THEN c.junk ELSE c.rules[r].subject, v |-> Canon(v), lo |-> IF w = "may" THEN 0 ELSE low, loose |-> loose, go |-> TRUE]
  IN IF depth > 6 THEN <<>>
     ELSE <<owed(s, TRUE)>>
          \o FlowAll(x, TLCEval([g \in writers |-> <<owed(First(g).db, Certain(x, g))>>]), -1)
          \o FlowAll(x, TLCEval([o \in on |-> next(o)]), depth + 1)
FlowAll(x, f, depth) ==
  IF DOMAIN f = {} THEN <<>>
  ELSE LET k == CHOOSE k \in DOMAIN f : TRUE
           rest == TLCEval([j \in DOMAIN f \ {k} |-> f[j]])
       IN (IF depth = -1 THEN f[k] ELSE IF ~f[k].go THEN <<>> ELSE Flow(x, f[k].s, f[k].v, f[k].lo, f[k].loose, depth)) \o FlowAll(x, rest, depth)
Owed(x) ==
  IF x.via = 0 THEN Flow(x, x.to, x.v, 1, FALSE, 0)
  ELSE IF ~Possible(x, x.via) THEN <<>>
  ELSE Flow(x, mem[x.via].c.subjects[1], EnsureNL(x.v), IF Certain(x, {x.via}) THEN 1 ELSE 0, FALSE, 0)

RECURSIVE OwedAll(_, _)
OwedAll(k, acc) == IF k > Len(sent) THEN acc ELSE OwedAll(k + 1, TLCEval(acc \o Owed(sent[k])))
Items(q) == {q[k] : k \in 1..Len(q)}
AsOwed ==
  LET owed == TLCEval(LET o == OwedAll(1, <<>>) IN [k \in 1..Len(o) |-> [o[k] EXCEPT !.p = Class(@)] @@ [b |-> Body(o[k].v)]])
         got == TLCEval([k \in 1..Len(gots) |-> [p |-> Class(gots[k].p), id |-> gots[k].id, v |-> gots[k].v, b |-> Body(gots[k].v)]])
         ids == {owed[k].id : k \in 1..Len(owed)} \cup {got[k].id : k \in 1..Len(got)}
     IN \A id \in ids :
          LET os == TLCEval(SelectSeq(owed, LAMBDA o : o.id = id))
              gs == TLCEval(SelectSeq(got, LAMBDA g : g.id = id))
          IN \A p \in {os[k].p : k \in 1..Len(os)} \cup {gs[k].p : k \in 1..Len(gs)} :
             LET o == TLCEval(SelectSeq(os, LAMBDA z : z.p = p))
                 g == TLCEval(SelectSeq(gs, LAMBDA z : z.p = p))
                 strict == {o[k].v : k \in {k \in 1..Len(o) : ~o[k].loose}}
             IN /\ \A b \in {o[k].b : k \in 1..Len(o)} \cup {g[k].b : k \in 1..Len(g)} :
                     LET low == Len(SelectSeq(o, LAMBDA z : z.b = b /\ z.lo = 1))
                         high == Len(SelectSeq(o, LAMBDA z : z.b = b))
                         n == Len(SelectSeq(g, LAMBDA z : z.b = b))
                     IN Req("line seen too rarely or too often", low <= n /\ n <= high, <<"where", p, "line", b, "expected", low, "to", high, "seen", n>>)
                /\ \A v \in strict :
                     Req("not delivered as it was", Len(SelectSeq(g, LAMBDA z : z.v = v)) >= Len(SelectSeq(o, LAMBDA z : ~z.loose /\ z.lo = 1 /\ z.v = v)),
                         <<"where", p, "line", v, "seen", g>>)
                /\ Req("delivered in a different form", Len(SelectSeq(g, LAMBDA z : z.v \notin strict)) <= Len(SelectSeq(o, LAMBDA z : z.loose)),
                       <<"where", p, "lines", strict, "seen", g>>)
(* A member cut off while there was work keeps some of that until it is back:*)
(* the phase goes on.                                                        *)
Kept == sent # <<>> /\ \E i \in DOMAIN mem : mem[i].apart /\ mem[i].left /\ mem[i].st = "up"
GoOn == Is("settled") /\ Kept /\ Advance /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep, work>>
Settled ==
  /\ Is("settled") /\ ~Kept /\ Advance
  /\ AsOwed = TRUE   \* (not evaluated as part of the action, which would take far longer)
  /\ sent' = <<>> /\ gots' = <<>>
  /\ mem' = TLCEval([i \in DOMAIN mem |-> [mem[i] EXCEPT !.left = mem[i].st = "stopping"]])
  /\ UNCHANGED <<asked, quiet, rep, work>>

-----------------------------------------------------------------------------
(* Probes.  A request is answered according to a state the component was in  *)
(* while it was made, which never goes back.                                 *)
Ask == /\ Is("preq") /\ Advance
       /\ asked' = Put(asked, Ev.id, IF Ev.i \in DOMAIN mem THEN [from |-> Len(mem[Ev.i].hist), alive |-> mem[Ev.i].alive, ready |-> mem[Ev.i].ready,
                                                                 off |-> mem[Ev.i].off, t |-> Ev.t]
                                     ELSE [from |-> 1, alive |-> FALSE, ready |-> FALSE, off |-> FALSE, t |-> Ev.t])
       /\ UNCHANGED <<mem, sent, gots, quiet, rep, work>>
Allowed(path, st, a, m) ==
  CASE st \in {"off", "stopped"} -> {0}
    [] st = "starting" -> IF path = "/healthz" THEN (IF a.alive THEN {200} ELSE {0, 200})
                          ELSE IF a.ready THEN {200} ELSE IF a.alive THEN {503, 200} ELSE {0, 503, 200}
    [] st = "up" -> IF path = "/healthz" THEN {200} ELSE IF ~a.ready /\ a.t - m.since < 3000 THEN {200, 503} ELSE {200}
    [] st = "stopping" -> IF a.off \/ (m.down > 0 /\ a.t - m.down > m.c.slack \div 2) THEN {0, 503} ELSE {0, 200, 503}
Probed ==
  /\ Is("pres") /\ Advance
  /\ LET a == asked[Ev.id]
         known == Ev.i \in DOMAIN mem
         hist == IF known THEN mem[Ev.i].hist ELSE <<"off">>
         m == IF known THEN mem[Ev.i] ELSE [since |-> 0, down |-> 0]
         (* What was known when it was asked is not about a later life.      *)
         same(k) == hist[a.from] # "stopped" /\ \A j \in a.from + 1..k : hist[j] # "starting"
         ok == UNION {Allowed(Ev.path, hist[k], IF same(k) THEN a ELSE [a EXCEPT !.alive = FALSE, !.ready = FALSE, !.off = FALSE], m) : k \in a.from..Len(hist)}
     IN /\ Req("answer of the probe", Ev.code \in ok, <<Ev.path, Ev.code, "allowed", ok, hist>>)
        (* The answer binds later ones if nothing changed meanwhile.         *)
        /\ mem' = IF known /\ a.from = Len(hist) /\ hist[a.from] \in {"starting", "up"}
                  THEN [mem EXCEPT ![Ev.i].alive = @ \/ Ev.code # 0, ![Ev.i].ready = @ \/ (Ev.path = "/readyz" /\ Ev.code = 200)]
                  ELSE IF known /\ hist[Len(hist)] = "stopping" /\ hist[a.from] \in {"up", "stopping"} /\ Ev.code # 200
                  THEN [mem EXCEPT ![Ev.i].off = TRUE] ELSE mem
  /\ asked' = TLCEval([k \in DOMAIN asked \ {Ev.id} |-> asked[k]])
  /\ UNCHANGED <<sent, gots, quiet, rep, work>>

-----------------------------------------------------------------------------
(* Reports.                                                                  *)
Component(mode) == IF mode = "listener_http" THEN "listener" ELSE mode
Counters(mode) ==
  CASE mode \in {"listener", "listener_http"} -> {"received", "sent", "read_errors", "failed_nats_publish"}
    [] mode = "filter" -> {"processed", "passed", "rejected", "invalid_time", "failed_nats_publish", "nats_dropped"}
    [] mode = "downsampler" -> {"received", "sent", "invalid_lines", "invalid_timestamps", "failed_nats_publish"}
    [] mode = "writer" -> {"received", "write_requests", "failed_writes"}
Label(n, v) == [name |-> n, value |-> v]
Labels(c) == {Label("component", Component(c.mode)), Label("name", c.name), Label("host", c.host)}
             \cup (IF c.mode = "writer" THEN {Label("influxdb_address", c.addr), Label("influxdb_port", c.dbport), Label("influxdb_dbname", c.dbname)} ELSE {})
(* The further metrics of a round: each a message of its own.                *)
Extras(c) ==
  CASE c.mode = "filter" -> {<<"triggered", {Label("rule", c.prefix \o c.rules[k].subject)}>> : k \in 1..Len(c.rules)}
    [] c.mode \in {"downsampler", "writer"} -> {<<"nats_dropped", {Label("subject", c.wire[k])}>> : k \in 1..Len(c.wire)}
    [] OTHER -> {}
LabelSet(key) == SetOf(key[2])
Values(set) == [k \in {<<key[1], LabelSet(key)>> : key \in DOMAIN set} |->
                  LET key == CHOOSE key \in DOMAIN set : k = <<key[1], LabelSet(key)>> IN set[key].value]
(* What a report makes of rep; [ok |-> FALSE] if it is not a proper one.      *)
Told(m, v) ==
  LET some == CHOOSE k \in DOMAIN v : TRUE
      whose == {i \in DOMAIN mem : Label("name", mem[i].c.name) \in some[2]}
      i == CHOOSE i \in whose : TRUE
      c == mem[i].c
      r == rep[i]
      general == {<<n, Labels(c)>> : n \in Counters(c.mode)}
      extra == {<<x[1], Labels(c) \cup x[2]>> : x \in Extras(c)}
      isGeneral == Cardinality(DOMAIN v) > 1
      stamp == m.set[CHOOSE k \in DOMAIN m.set : TRUE].stamp
      ok == /\ Req("whose report?", whose # {}, Ev.lines)
            /\ IF isGeneral
               THEN /\ Eq("the counters reported", general, DOMAIN v)
                    /\ Eq("not reported the last time", {}, r.owed)
                    /\ r.rounds > 0 => Req("the interval of reports", /\ \/ Ev.t - r.t >= c.stats \div 2   \* the bus may have been slow with the one before
                                                                        \/ Le(ToString(c.stats \div 2), Sub(stamp, r.stamp))
                                                                     /\ Ev.t - r.t <= c.stats + c.slack, <<Ev.t - r.t, r.stamp, stamp, c.stats>>)
                    /\ r.rounds = 0 => Req("the first report is late", Ev.t - mem[i].since <= Slack, Ev)
               ELSE Req("an unknown counter, or one reported already", DOMAIN v \subseteq r.owed, <<DOMAIN v, r.owed>>)
            /\ \A k \in DOMAIN m.set :
                 LET s == m.set[k].stamp IN
                 Req("the time of the report", Le(c.now, s) /\ Le(s, Ev.now) /\ Le(Sub(Ev.now, "4000"), s), <<s, Ev.now>>)
            /\ \A k \in DOMAIN v : Req("a counter decreases", Le(IF k \in DOMAIN r.last THEN r.last[k] ELSE "0", v[k]), <<k[1], r.last, v[k]>>)
  IN IF ~ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, rep |-> TLCEval([rep EXCEPT ![i] = [rounds |-> IF isGeneral THEN r.rounds + 1 ELSE r.rounds, t |-> IF isGeneral THEN Ev.t ELSE r.t,
                                               stamp |-> IF isGeneral THEN stamp ELSE r.stamp,
                                               owed |-> IF isGeneral THEN extra ELSE r.owed \ DOMAIN v,
                                               last |-> TLCEval([k \in DOMAIN r.last \cup DOMAIN v |-> IF k \in DOMAIN v THEN v[k] ELSE r.last[k]])]])]
Report ==
  /\ Is("mon") /\ Advance
  /\ Req("something is still published", ~quiet, Ev)
  /\ \E m \in {TLCEval(Message(Ev.lines))} :
     /\ Req("malformed report", m.ok /\ m.strict /\ DOMAIN m.set # {}, Ev.lines)
     /\ \E v \in {TLCEval(Values(m.set))} : \E n \in {Told(m, v)} : n.ok /\ rep' = n.rep
  /\ UNCHANGED <<mem, sent, gots, asked, quiet, work>>

(* At rest the counters are what there was to do.                            *)
Reported(i, n) == LET ks == {k \in DOMAIN rep[i].last : k[1] = n} IN Sum(ks, LAMBDA k : ToNat(rep[i].last[k]))
Lost(i, k) == LET ks == {x \in DOMAIN rep[i].last : x[1] = "nats_dropped" /\ Label("subject", mem[i].c.wire[k]) \in x[2]} IN Sum(ks, LAMBDA x : ToNat(rep[i].last[x]))
LostIn(i) == \A k \in 1..Len(mem[i].c.wire) : Req("more dropped of a subject than there was", Lost(i, k) <= At(work.msgs, mem[i].c.subjects[k]), <<mem[i].c.subjects, k>>)
Total(g, n) == Sum(g, LAMBDA i : Reported(i, n))
Subjects(i) == SetOf(mem[i].c.subjects)
AllDone ==
  /\ \A i \in DOMAIN mem : Reporting(i, Ev.t)
  /\ \A i \in Of("listener") \cup Of("listener_http") :
       LET s == mem[i].c.subjects[1] IN
       /\ Eq("received", At(work.fed, <<"in", i>>), Reported(i, "received"))
       /\ LET g == {j \in Of("listener") \cup Of("listener_http") : mem[j].c.subjects[1] = s} IN
          Eq("sent", At(work.msgs, s) - At(work.fed, <<"bus", s>>), Total(g, "sent") - Total(g, "failed_nats_publish"))
       /\ Eq("read_errors", 0, Reported(i, "read_errors"))
       /\ Eq("failed_nats_publish", At(work.big, <<"in", i>>), Reported(i, "failed_nats_publish"))
  /\ \A s \in UNION {Subjects(i) : i \in Of("filter")} :
       LET g == {i \in Of("filter") : Reads(i, s)}
           c == First(g)
           made(o) == At(work.lines, o) - At(work.given, o)
           outs == {c.rules[k].subject : k \in 1..Len(c.rules)} IN
       /\ Eq("processed and nats_dropped", At(work.lines, s), Total(g, "processed") + Total(g, "nats_dropped"))
       /\ Eq("passed", Sum(outs, made), Total(g, "passed"))
       /\ Eq("rejected", made(c.junk), Total(g, "rejected"))
       /\ \A o \in outs : Eq("triggered " \o o, made(o),
            Sum(g, LAMBDA i : LET ks == {k \in DOMAIN rep[i].last : k[1] = "triggered" /\ Label("rule", c.prefix \o o) \in k[2]} IN Sum(ks, LAMBDA k : ToNat(rep[i].last[k]))))
  /\ \A i \in Of("writer") :
       LET g == {j \in Of("writer") : Group(j) = Group(i)} IN
       /\ Eq("received and nats_dropped", Sum(UNION {Subjects(j) : j \in g}, LAMBDA s : At(work.msgs, s)), Total(g, "received") + Total(g, "nats_dropped"))
       /\ LostIn(i)
       /\ Eq("write_requests", At(work.msgs, mem[i].c.db), Sum({j \in Of("writer") : mem[j].c.db = mem[i].c.db}, LAMBDA j : Reported(j, "write_requests")))
       /\ Eq("failed_writes", At(work.bad, mem[i].c.db), Sum({j \in Of("writer") : mem[j].c.db = mem[i].c.db}, LAMBDA j : Reported(j, "failed_writes")))
  /\ \A i \in Of("downsampler") :
       /\ Eq("received and nats_dropped", Sum(Subjects(i), LAMBDA s : At(work.msgs, s)), Reported(i, "received") + Reported(i, "nats_dropped"))
       /\ LostIn(i)
       /\ Eq("sent", Sum(Subjects(i), LAMBDA s : At(work.msgs, s \o mem[i].c.suffix)), Reported(i, "sent") - Reported(i, "failed_nats_publish"))
       /\ work.limit = 0 => Eq("failed_nats_publish", 0, Reported(i, "failed_nats_publish"))
Rest == Is("rest") /\ Advance /\ AllDone = TRUE /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep, work>>
(* A listener that sends everything at once: it was published or is counted  *)
(* as failed.                                                                *)
Tally == /\ Is("tally") /\ Advance
         /\ LET c == mem[Ev.i].c
                fed == At(work.fed, <<"in", Ev.i>>) IN
            /\ IF c.mode = "listener_http" THEN Eq("received", fed, Ev.received) ELSE Req("received", Ev.received <= fed, <<fed, Ev>>)
            /\ Eq("sent", Ev.received, Ev.sent)
            /\ Eq("published or counted as failed", Ev.sent, At(work.msgs, c.subjects[1]) + Ev.failed)
         /\ UNCHANGED <<mem, sent, gots, asked, quiet, rep, work>>

TraceNext == Tally \/ Fleet \/ Away \/ Returning \/ Resumed \/ Reports \/ Begin \/ Begun \/ ReadySeen \/ End \/ Ended \/ Forgotten \/ Never \/ Leaks \/ Shown \/ Mark \/ Send \/ Fed \/ Got \/ Unsent
             \/ GoOn \/ Settled \/ Ask \/ Probed \/ Report \/ Rest
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
