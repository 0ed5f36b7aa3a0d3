--------------------------- MODULE TraceDownsampler --------------------------
(* Recorded executions of a real downsampler: lines it is given ("in"), what *)
(* it publishes ("out"), and moments at which everything due must have been  *)
(* published ("settled").  Times are in nanoseconds, as text.                *)
EXTENDS TraceBase, Aggregate
ASSUME InitProgress
VARIABLES conf, agg,             \* <<subject, end of period, key>> -> series
          invalid, stamps,       \* counters
          msgs, sent, part       \* messages, aggregates published, the one being published
vars == <<l, conf, agg, invalid, stamps, msgs, sent, part>>
TraceInit == l = 1 /\ conf = <<>> /\ agg = <<>> /\ invalid = 0 /\ stamps = 0 /\ msgs = 0 /\ sent = 0 /\ part = <<>>
Start == /\ Is("start") /\ Advance /\ conf' = Ev
         /\ agg' = <<>> /\ invalid' = 0 /\ stamps' = 0 /\ msgs' = 0 /\ sent' = 0 /\ part' = <<>>

(* One line of subject subj, seen at time now while the current period ends  *)
(* at c.                                                                     *)
OneLine(st, subj, line, now, c) ==
  LET x == ExtractTimestamp(line)
      ts == IF x.found THEN x.ts ELSE now
      p == Split2(IF x.found THEN UpTo(line, x.off - 1) ELSE line)
      e == IF Lt(ts, Sub(c, MulSmall(conf.period, 2))) THEN ""
           ELSE IF Lt(ts, Sub(c, conf.period)) THEN Sub(c, conf.period)
           ELSE IF Lt(ts, c) THEN c
           ELSE IF Lt(ts, Add(c, conf.period)) THEN Add(c, conf.period) ELSE ""
      k == <<subj, e, p.key>>
      known == k \in DOMAIN st.agg
      r == AddFields(IF known THEN st.agg[k] ELSE <<>>, p.fields, 0)
  IN  IF line = "" THEN st
      ELSE IF e = "" THEN [st EXCEPT !.stamps = @ + 1]
      ELSE [st EXCEPT !.invalid = @ + r.errs,
                      !.agg = IF known THEN [@ EXCEPT ![k] = r.s]
                              ELSE IF r.errs > 0 /\ DOMAIN r.s = {} THEN @
                              ELSE @ @@ (k :> r.s)]
RECURSIVE AllLines(_, _, _, _, _, _)
AllLines(st, subj, ls, i, now, c) ==
  IF i > Len(ls) THEN st ELSE AllLines(OneLine(st, subj, TrimNL(ls[i]), now, c), subj, ls, i + 1, now, c)

In == /\ Is("in") /\ Advance
      /\ LET st == TLCEval(AllLines([agg |-> agg, invalid |-> invalid, stamps |-> stamps], Ev.subj, Ev.lines, 1, Ev.now, PeriodEnd(Ev.now, conf.period)))
         IN  /\ agg' = st.agg /\ invalid' = st.invalid /\ stamps' = st.stamps
             /\ Ev.checked => /\ Eq("invalid lines", st.invalid - invalid, Ev.invalid)
                              /\ Eq("invalid timestamps", st.stamps - stamps, Ev.stamps)
      /\ msgs' = msgs + 1
      /\ UNCHANGED <<conf, sent, part>>

OutLine(line) ==
  LET x == ExtractTimestamp(line)
      p == Split2(UpTo(line, x.off - 1))
  IN  [ok |-> x.found /\ EndsWith(line, "\n"), ts |-> x.ts, key |-> p.key, fields |-> p.fields]
Ends(subj) == {k[2] : k \in {y \in DOMAIN agg : y[1] = subj}}
Out == /\ Is("out") /\ Advance
       /\ Req("nothing in it", Ev.lines # <<>>, Ev)
       /\ LET os == TLCEval([i \in 1..Len(Ev.lines) |-> OutLine(Ev.lines[i])])
              e == os[1].ts
              key(i) == <<Ev.subj, e, os[i].key>>
              keys == {key(i) : i \in 1..Len(os)}
          IN  /\ Req("not a line with a timestamp", \A i \in 1..Len(os) : os[i].ok, Ev)
              /\ Req("more than one period in a message", \A i \in 1..Len(os) : os[i].ts = e, Ev)
              /\ Req("published before the next period has ended", Le(Add(e, conf.period), Ev.now), <<e, Ev.now>>)
              /\ Req("a line that is not due", keys \subseteq DOMAIN agg, <<"not due:", keys \ DOMAIN agg>>)
              /\ Req("a line twice", Cardinality(keys) = Len(os), keys)
              /\ Req("an earlier period is still to be published", \A x \in Ends(Ev.subj) : Le(e, x), <<e, Ends(Ev.subj)>>)
              /\ \A i \in 1..Len(os) :
                   Req("wrong values", Shows(agg[key(i)], os[i].fields), <<os[i], "values", agg[key(i)]>>)
              /\ conf.live => Req("published too late", Le(Ev.now, Add(Add(e, conf.period), "3000000000")), <<e, Ev.now>>)
              /\ agg' = [k \in DOMAIN agg \ keys |-> agg[k]]
              /\ sent' = sent + (IF part = <<Ev.subj, e>> THEN 0 ELSE 1)
              \* (a message holds as much as it may)
              /\ part' = IF \E k \in DOMAIN agg \ keys : k[1] = Ev.subj /\ k[2] = e THEN <<Ev.subj, e>> ELSE <<>>
              /\ part' # <<>> => Req("part of the period is missing", Ev.b > 900000, DOMAIN agg \ keys)
       /\ UNCHANGED <<conf, invalid, stamps, msgs>>
Settled == /\ Is("settled") /\ Advance
           /\ LET due == {k \in DOMAIN agg : Le(Add(k[2], conf.period), Ev.now)} IN
              Req("never published", due = {}, due)
           /\ UNCHANGED <<conf, agg, invalid, stamps, msgs, sent, part>>
End == /\ Is("end") /\ Advance
       /\ Eq("received", msgs, Ev.received)
       /\ Eq("sent", sent, Ev.sent)
       /\ Eq("invalid_lines", invalid, Ev.invalid)
       /\ Eq("invalid_timestamps", stamps, Ev.stamps)
       /\ Eq("failed_nats_publish", 0, Ev.failed)
       /\ UNCHANGED <<conf, agg, invalid, stamps, msgs, sent, part>>
TraceNext == Start \/ In \/ Out \/ Settled \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
