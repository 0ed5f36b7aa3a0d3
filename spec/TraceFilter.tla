----------------------------- MODULE TraceFilter -----------------------------
(* Recorded executions of one or more real filters on one subject, judged    *)
(* against FilterContract.                                                   *)
EXTENDS TraceBase, Rules, FilterContract
ASSUME InitProgress
VARIABLES conf,     \* the scenario's configuration
          n,        \* lines of the current output message already explained
          tot       \* expected counters; tot.may: lines whose time is a close call
vars == <<l, owed, arrived, conf, n, tot>>

Zero == [processed |-> 0, passed |-> 0, rejected |-> 0, invalid |-> 0, may |-> 0, trig |-> <<>>]
TraceInit == l = 1 /\ CInit /\ conf = <<>> /\ n = 0 /\ tot = Zero

Start == /\ Is("start") /\ Advance
         /\ conf' = Ev /\ n' = 0
         /\ tot' = [Zero EXCEPT !.trig = [i \in 1..Len(Ev.rules) |-> 0]]
         /\ owed' = {} /\ arrived' = 0

(* Everything there is to know about an incoming line.                       *)
Info(line, t0, t1) ==
  LET w == Window(line, conf.delta, t0, t1)
      r == IF w = "out" THEN -2 ELSE Route(conf.rules, line)
  IN  [v |-> [raw |-> line, canon |-> IF r >= 0 THEN Canon(line) ELSE ""], d |-> r, may |-> w = "may"]
Infos(ls, t0, t1) == TLCEval([i \in 1..Len(ls) |-> Info(ls[i], t0, t1)])
CountOf(items, d) == Len(SelectSeq(items, LAMBDA x : x.d = d))
In == /\ Is("in") /\ Advance
      /\ LET items == Infos(Ev.lines, Ev.t0, Ev.t1) IN
         /\ Arrive(SelectSeq(items, LAMBDA x : x.d >= 0))
         /\ tot' = [processed |-> tot.processed + Len(items),
                    passed |-> tot.passed + Len(SelectSeq(items, LAMBDA x : x.d > 0)),
                    rejected |-> tot.rejected + CountOf(items, 0),
                    invalid |-> tot.invalid + CountOf(items, -2),
                    may |-> tot.may + Len(SelectSeq(items, LAMBDA x : x.may)),
                    trig |-> [i \in 1..Len(tot.trig) |-> tot.trig[i] + CountOf(items, i)]]
      /\ UNCHANGED <<conf, n>>

DestsOf(subject) ==
  {i \in 1..Len(conf.rules) : conf.rules[i].subject = subject} \cup (IF subject = conf.junk THEN {0} ELSE {})
Same(line, published) ==
  IF published = line.canon THEN TRUE
  ELSE ~DistinctKeys(ParseTags(TrimNL(line.raw)).tags) /\ IsCanonOf(published, line.raw)
Out == /\ Is("out") /\ n < Len(Ev.lines)
       /\ IF CanDeliver(DestsOf(Ev.subject), Ev.lines[n + 1], Same)
          THEN Deliver(DestsOf(Ev.subject), Ev.lines[n + 1], Same)
          ELSE Req("not owed to this subject (or not in this order or form)", FALSE,
                     <<Ev.subject, Ev.lines[n + 1],
                       "next owed:", {Head(p.q).v.canon : p \in {x \in owed : x.d \in DestsOf(Ev.subject)}}>>)
       /\ IF n + 1 = Len(Ev.lines) THEN n' = 0 /\ Advance ELSE n' = n + 1 /\ UNCHANGED l
       /\ UNCHANGED <<conf, tot>>

(* At rest nothing is owed any more and the counters account for all lines.  *)
TrigBag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Len(SelectSeq(q, LAMBDA y : y = x))]
End == /\ Is("end") /\ Advance
       /\ Req("lines never published", Settled, [p \in owed |-> p.q])
       /\ (tot.may = 0 /\ Ev.metrics) =>
            /\ Eq("processed", tot.processed, Ev.processed)
            /\ Eq("passed", tot.passed, Ev.passed)
            /\ Eq("rejected", tot.rejected, Ev.rejected)
            /\ Eq("invalid_time", tot.invalid, Ev.invalid)
            /\ Eq("failed_nats_publish", 0, Ev.failed)
            /\ Eq("nats_dropped", 0, Ev.dropped)
            /\ Eq("triggered", TrigBag([i \in 1..Len(tot.trig) |-> <<conf.rules[i].subject, tot.trig[i]>>]),
                  TrigBag(Ev.trig))
       /\ UNCHANGED <<owed, arrived, conf, n, tot>>

TraceNext == Start \/ In \/ Out \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
