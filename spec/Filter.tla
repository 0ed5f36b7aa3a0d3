-------------------------------- MODULE Filter --------------------------------
(* The filter's design: messages wait in a channel, workers take them one at *)
(* a time, look at each line, collect it in the buffer of its destination    *)
(* and publish all non-empty buffers when the message is done.  TLC checks   *)
(* that every behaviour is one of FilterContract, for every small history.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Workers, NRules, MaxMsgs, MaxLines
VARIABLES sent,     \* messages sent so far (each a sequence of lines)
          channel,  \* messages waiting for a worker
          cur,      \* cur[w]: what worker w still has to look at, or Idle
          buf,      \* buf[w][d]: lines collected for destination d
          out,      \* published: out[d] sequence of lines
          st        \* counters
vars == <<sent, channel, cur, buf, out, st>>

Dest == 0..NRules
(* A line is [n: its number, c: its class]; classes: a destination, "bad"    *)
(* (malformed) or "late" (outside the time window).                          *)
Class == Dest \cup {-1, -2}          \* -1 malformed, -2 outside the window
Idle == [busy |-> FALSE, todo |-> <<>>]
NoLines == [d \in Dest |-> <<>>]

Init == /\ sent = 0 /\ channel = <<>> /\ cur = [w \in Workers |-> Idle]
        /\ buf = [w \in Workers |-> NoLines] /\ out = NoLines
        /\ st = [processed |-> 0, passed |-> 0, rejected |-> 0, invalid |-> 0, trig |-> [d \in Dest |-> 0]]

Messages == UNION {[1..n -> Class] : n \in 1..MaxLines}
Send(m) == /\ sent < MaxMsgs
           /\ sent' = sent + 1
           /\ channel' = Append(channel, [i \in 1..Len(m) |-> [n |-> <<sent, i>>, c |-> m[i]]])
           /\ UNCHANGED <<cur, buf, out, st>>
Take(w) == /\ ~cur[w].busy /\ channel # <<>>
           /\ cur' = [cur EXCEPT ![w] = [busy |-> TRUE, todo |-> Head(channel)]]
           /\ channel' = Tail(channel)
           /\ UNCHANGED <<sent, buf, out, st>>
Look(w) == /\ cur[w].busy /\ cur[w].todo # <<>>
           /\ LET x == Head(cur[w].todo) IN
              /\ cur' = [cur EXCEPT ![w].todo = Tail(@)]
              /\ buf' = IF x.c \in Dest THEN [buf EXCEPT ![w][x.c] = Append(@, x)] ELSE buf
              /\ st' = [st EXCEPT !.processed = @ + 1,
                                  !.passed = @ + IF x.c \in 1..NRules THEN 1 ELSE 0,
                                  !.rejected = @ + IF x.c = 0 THEN 1 ELSE 0,
                                  !.invalid = @ + IF x.c = -2 THEN 1 ELSE 0,
                                  !.trig = IF x.c \in Dest THEN [@ EXCEPT ![x.c] = @ + 1] ELSE @]
           /\ UNCHANGED <<sent, channel, out>>
(* Publishing one buffer; the worker is free once all are empty.             *)
Publish(w, d) == /\ cur[w].busy /\ cur[w].todo = <<>> /\ buf[w][d] # <<>>
                 /\ out' = [out EXCEPT ![d] = @ \o buf[w][d]]
                 /\ buf' = [buf EXCEPT ![w][d] = <<>>]
                 /\ UNCHANGED <<sent, channel, cur, st>>
Done(w) == /\ cur[w].busy /\ cur[w].todo = <<>> /\ buf[w] = NoLines
           /\ cur' = [cur EXCEPT ![w] = Idle]
           /\ UNCHANGED <<sent, channel, buf, out, st>>
Next == \/ \E m \in Messages : Send(m)
        \/ \E w \in Workers : Take(w) \/ Look(w) \/ Done(w) \/ \E d \in Dest : Publish(w, d)
Fairness == \A w \in Workers : WF_vars(Take(w) \/ Look(w) \/ Done(w) \/ \E d \in Dest : Publish(w, d))
Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
RangeOf(q) == {q[i] : i \in 1..Len(q)}
Quiet == channel = <<>> /\ \A w \in Workers : cur[w] = Idle
AtMostOnce == \A d \in Dest : Cardinality(RangeOf(out[d])) = Len(out[d])
RightPlace == \A d \in Dest : \A i \in 1..Len(out[d]) : out[d][i].c = d
InOrder == \A d \in Dest : \A i, j \in 1..Len(out[d]) :
             i < j /\ out[d][i].n[1] = out[d][j].n[1] => out[d][i].n[2] < out[d][j].n[2]
(* A message's lines for one destination come out next to each other.        *)
Together == \A d \in Dest : \A i, j, k \in 1..Len(out[d]) :
             i < j /\ j < k /\ out[d][i].n[1] = out[d][k].n[1] => out[d][j].n[1] = out[d][i].n[1]
RECURSIVE SumTrig(_)
SumTrig(d) == IF d = 0 THEN 0 ELSE st.trig[d] + SumTrig(d - 1)
Accounting ==
  /\ st.passed = SumTrig(NRules)
  /\ st.rejected = st.trig[0]
  /\ st.processed >= st.passed + st.rejected + st.invalid
  /\ Quiet => \A d \in Dest : Len(out[d]) = st.trig[d]

Monotone == [][/\ st'.processed >= st.processed /\ st'.passed >= st.passed
               /\ \A d \in Dest : Len(out'[d]) >= Len(out[d])]_vars
EventuallyQuiet == [](sent = MaxMsgs => <>Quiet)
=============================================================================
