-------------------------------- MODULE Writer -------------------------------
(* Design of the writer: workers take messages from the bus, collect them in *)
(* batches, write these (in pieces if they are too large) to InfluxDB and    *)
(* hand what could not be written to a retry worker of their own.            *)
(* A message is one line; sizes are numbers of messages.                     *)
EXTENDS RetryQueue, FiniteSets, TLC
CONSTANTS Workers, NMsgs,
          MaxCount, PieceSize,     \* batch limits
          RetryBatches,            \* 0: no retries
          RetryTicks,              \* ticks a batch may wait for
          MaxTime,
          Answers                  \* what InfluxDB may answer: "ok", "temp", "perm"
VARIABLES bus,        \* messages still to be taken
          batch,      \* per worker: messages collected
          due,        \* per worker: the oldest of them is old enough
          pieces,     \* per worker: what remains to be written of a batch
          pc,         \* per worker: "idle", "writing", "handing"
          chan,       \* per worker: piece on its way to the retry worker
          queue,      \* per worker: waiting pieces [d, n, until]
          rpc,        \* per retry worker: "idle" or "writing"
          timer,      \* per retry worker: ticks since it is waiting
          attempts,   \* piece -> number of attempts
          failures,   \* ... of failed ones
          accepted,   \* pieces InfluxDB has accepted
          rejected,   \* pieces refused as client error on a retry
          given,      \* pieces given up (expired or displaced)
          requests, failed,        \* the counters
          now, seq
vars == <<bus, batch, due, pieces, pc, chan, queue, rpc, timer, attempts, failures, accepted, rejected, given, requests, failed, now, seq>>
db == <<attempts, failures, accepted, rejected, requests, failed>>

Per(x) == [w \in Workers |-> x]
Init == /\ bus = [i \in 1..NMsgs |-> i] /\ batch = Per(<<>>) /\ due = Per(FALSE) /\ pieces = Per(<<>>)
        /\ pc = Per("idle") /\ chan = Per(<<>>) /\ queue = Per(<<>>) /\ rpc = Per("idle") /\ timer = Per(0)
        /\ attempts = <<>> /\ failures = <<>> /\ accepted = {} /\ rejected = {} /\ given = {}
        /\ requests = 0 /\ failed = 0 /\ now = 0 /\ seq = 0

RECURSIVE Cut(_)
Cut(b) == IF b = <<>> THEN <<>>
          ELSE IF Len(b) <= PieceSize THEN <<b>>
          ELSE <<SubSeq(b, 1, PieceSize)>> \o Cut(SubSeq(b, PieceSize + 1, Len(b)))
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Bump(f, x) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN Get(f, x) + 1 ELSE f[y]]

Flush(w, b) == /\ pieces' = [pieces EXCEPT ![w] = Cut(b)]
               /\ pc' = [pc EXCEPT ![w] = "writing"]
               /\ batch' = [batch EXCEPT ![w] = <<>>]
               /\ due' = [due EXCEPT ![w] = FALSE]
Take(w) == /\ pc[w] = "idle" /\ bus # <<>>
           /\ bus' = Tail(bus)
           /\ LET b == Append(batch[w], Head(bus)) IN
              IF Len(b) >= MaxCount \/ due[w] THEN Flush(w, b)
              ELSE batch' = [batch EXCEPT ![w] = b] /\ UNCHANGED <<due, pieces, pc>>
           /\ UNCHANGED <<chan, queue, rpc, timer, db, given, now, seq>>
(* The worker wakes up regularly to look at the age of its batch.            *)
Wake(w) == /\ pc[w] = "idle" /\ batch[w] # <<>> /\ due[w]
           /\ Flush(w, batch[w])
           /\ UNCHANGED <<bus, chan, queue, rpc, timer, db, given, now, seq>>

(* An attempt at writing d, with InfluxDB's answer.                          *)
Attempt(d, a) ==
  /\ requests' = requests + 1 /\ attempts' = Bump(attempts, d)
  /\ IF a = "ok" THEN accepted' = accepted \cup {d} /\ UNCHANGED <<failed, failures>>
     ELSE failed' = failed + 1 /\ failures' = Bump(failures, d) /\ UNCHANGED accepted
Write(w, a) == /\ pc[w] = "writing"
               /\ Attempt(Head(pieces[w]), a)
               /\ IF a # "ok" /\ RetryBatches > 0
                  THEN pc' = [pc EXCEPT ![w] = "handing"] /\ UNCHANGED pieces
                  ELSE /\ pieces' = [pieces EXCEPT ![w] = Tail(@)]
                       /\ pc' = [pc EXCEPT ![w] = IF Len(pieces[w]) = 1 THEN "idle" ELSE "writing"]
               /\ UNCHANGED <<bus, batch, due, chan, queue, rpc, timer, rejected, given, now, seq>>
(* Handing over blocks while the retry worker is busy.                       *)
Hand(w) == /\ pc[w] = "handing" /\ chan[w] = <<>>
           /\ chan' = [chan EXCEPT ![w] = <<Head(pieces[w])>>]
           /\ pieces' = [pieces EXCEPT ![w] = Tail(@)]
           /\ pc' = [pc EXCEPT ![w] = IF Len(pieces[w]) = 1 THEN "idle" ELSE "writing"]
           /\ UNCHANGED <<bus, batch, due, queue, rpc, timer, db, given, now, seq>>

RetryTake(w) == /\ rpc[w] = "idle" /\ chan[w] # <<>>
                /\ chan' = [chan EXCEPT ![w] = <<>>]
                /\ seq' = seq + 1
                /\ LET x == [d |-> Head(chan[w]), n |-> seq, until |-> now + RetryTicks]
                       q == queue[w] IN
                   /\ queue' = [queue EXCEPT ![w] = Added(q, x, RetryBatches)]
                   /\ given' = IF Len(q) >= RetryBatches THEN given \cup {q[Oldest(q)].d} ELSE given
                   /\ timer' = IF q = <<>> THEN [timer EXCEPT ![w] = 0] ELSE timer
                /\ UNCHANGED <<bus, batch, due, pieces, pc, rpc, db, now>>
(* Once per interval (one tick) the first batch that has not expired.        *)
RECURSIVE FromLive(_)
FromLive(q) == IF q = <<>> THEN q ELSE IF now <= Head(q).until THEN q ELSE FromLive(Tail(q))
RetryFire(w) == /\ rpc[w] = "idle" /\ queue[w] # <<>> /\ timer[w] >= 1
                /\ LET q == FromLive(queue[w]) IN
                   /\ queue' = [queue EXCEPT ![w] = q]
                   /\ given' = given \cup {queue[w][i].d : i \in 1..(Len(queue[w]) - Len(q))}
                   /\ rpc' = IF q = <<>> THEN rpc ELSE [rpc EXCEPT ![w] = "writing"]
                /\ timer' = [timer EXCEPT ![w] = 0]
                /\ UNCHANGED <<bus, batch, due, pieces, pc, chan, db, now, seq>>
RetryWrite(w, a) == /\ rpc[w] = "writing"
                    /\ Attempt(Head(queue[w]).d, a)
                    /\ queue' = [queue EXCEPT ![w] = IF a = "temp" THEN Cycled(@) ELSE Tail(@)]
                    /\ rejected' = IF a = "perm" THEN rejected \cup {Head(queue[w]).d} ELSE rejected
                    /\ rpc' = [rpc EXCEPT ![w] = "idle"]
                    /\ timer' = [timer EXCEPT ![w] = 0]
                    /\ UNCHANGED <<bus, batch, due, pieces, pc, chan, given, now, seq>>
Tick == /\ now < MaxTime /\ now' = now + 1
        /\ \A w \in Workers : ~(rpc[w] = "idle" /\ queue[w] # <<>> /\ timer[w] >= 1)
        /\ \A w \in Workers : ~(pc[w] = "idle" /\ due[w])
        /\ timer' = [w \in Workers |-> IF queue[w] # <<>> /\ rpc[w] = "idle" THEN timer[w] + 1 ELSE timer[w]]
        /\ due' = [w \in Workers |-> due[w] \/ (batch[w] # <<>> /\ pc[w] = "idle")]
        /\ UNCHANGED <<bus, batch, pieces, pc, chan, queue, rpc, db, given, seq>>
Next == \/ Tick
        \/ \E w \in Workers : Take(w) \/ Wake(w) \/ Hand(w) \/ RetryTake(w) \/ RetryFire(w)
                              \/ \E a \in Answers : Write(w, a) \/ RetryWrite(w, a)
Fair(w) == /\ WF_vars(Take(w)) /\ WF_vars(Wake(w)) /\ WF_vars(Hand(w))
           /\ WF_vars(RetryTake(w)) /\ WF_vars(RetryFire(w))
           /\ WF_vars(\E a \in Answers : Write(w, a)) /\ WF_vars(\E a \in Answers : RetryWrite(w, a))
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A w \in Workers : Fair(w)

-----------------------------------------------------------------------------
Rng(q) == {q[i] : i \in 1..Len(q)}
Pieces == DOMAIN attempts
Waiting == UNION {{queue[w][i].d : i \in 1..Len(queue[w])} : w \in Workers}
Moving == UNION {Rng(chan[w]) \cup (IF pc[w] = "handing" THEN {Head(pieces[w])} ELSE {}) : w \in Workers}
(* Every message is in exactly one place: on the bus, in a batch, about to   *)
(* be attempted, or in exactly one piece that was attempted.                 *)
Places(m) == Cardinality({p \in Pieces : m \in Rng(p)})
  + (IF m \in Rng(bus) THEN 1 ELSE 0)
  + Cardinality({w \in Workers : m \in Rng(batch[w])})
  + Cardinality({x \in {<<w, i>> : w \in Workers, i \in 1..NMsgs} :
       x[2] <= Len(pieces[x[1]]) /\ m \in Rng(pieces[x[1]][x[2]]) /\ ~(x[2] = 1 /\ pc[x[1]] = "handing")})
ExactlyOnePlace == \A m \in 1..NMsgs : Places(m) = 1
(* Pieces hold consecutive lines of one worker in order, never too many.     *)
WellCut == \A p \in Pieces : Len(p) <= PieceSize /\ \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
(* What was attempted and not accepted waits, or was rightly given up.       *)
Accounted == \A p \in Pieces : p \in accepted \cup rejected \cup given \cup Waiting \cup Moving \/ RetryBatches = 0
(* Accepted (or refused, or given up) batches are never waiting any more.    *)
NeverAgain == (accepted \cup rejected \cup given) \cap (Waiting \cup Moving) = {}
OnceAccepted == [][\A p \in accepted \cup rejected \cup given : Get(attempts', p) = Get(attempts, p)]_vars
Bounded == \A w \in Workers : Len(queue[w]) <= RetryBatches
NoRetries == RetryBatches = 0 => \A p \in Pieces : attempts[p] = 1
InTime == [][\A w \in Workers : rpc[w] = "idle" /\ rpc'[w] = "writing" => Head(queue'[w]).until >= now]_vars
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Total(f, S \ {x})
Counted == requests = Total(attempts, Pieces) /\ failed = Total(failures, DOMAIN failures)
(* Every message is eventually attempted, whatever InfluxDB answers.         *)
EveryMessageAttempted == \A m \in 1..NMsgs :
  [](m \in Rng(bus) => <>(now = MaxTime \/ \E p \in Pieces : m \in Rng(p)))
BusDrained == <>(bus = <<>>)
=============================================================================
