------------------------------ MODULE Listener -------------------------------
(* Design of the listeners: clients write bodies (or datagrams), the batch   *)
(* collects them, and is sent when a limit is reached, checked after each    *)
(* write (by the writer itself) and, for the age, by a goroutine of its own  *)
(* (HTTP) or at least once a second (UDP).  Time is counted in ticks.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Clients, MaxReq,      \* clients, and requests of each client
          Sizes,                \* possible numbers of lines of a body
          MaxCount, MaxSize, Datagram, MaxAge, Late, MaxTime,
          Staller               \* a client which may never finish a body
VARIABLES pc,       \* what each client is doing
          body,     \* the body it is sending
          made,     \* bodies each client has sent
          before,   \* bodies confirmed before the body was begun
          confirmed,
          buf, writes, age,     \* the batch: tokens [b: body, i, nl]
          out, now
vars == <<pc, body, made, before, confirmed, buf, writes, age, out, now>>

None == [c |-> "none", k |-> 0, n |-> 0, nl |-> TRUE]
Bodies(c, k) == {[c |-> c, k |-> k, n |-> n, nl |-> e] : n \in Sizes, e \in BOOLEAN}
Tokens(b) == [i \in 1..b.n |-> [c |-> b.c, k |-> b.k, i |-> i, nl |-> i < b.n \/ b.nl]]
EnsureNL(q) == IF q = <<>> THEN q ELSE [q EXCEPT ![Len(q)].nl = TRUE]
Range(q) == {q[i] : i \in 1..Len(q)}

Init == /\ pc = [c \in Clients |-> "idle"] /\ body = [c \in Clients |-> None]
        /\ made = [c \in Clients |-> 0] /\ before = [c \in Clients |-> {}] /\ confirmed = {}
        /\ buf = <<>> /\ writes = 0 /\ age = 0 /\ out = <<>> /\ now = 0

Send == out' = Append(out, buf) /\ buf' = <<>> /\ writes' = 0 /\ age' = 0

Begin(c) == /\ pc[c] = "idle" /\ made[c] < MaxReq
            /\ \E b \in Bodies(c, made[c] + 1) : body' = [body EXCEPT ![c] = b]
            /\ pc' = [pc EXCEPT ![c] = "reading"]
            /\ made' = [made EXCEPT ![c] = @ + 1]
            /\ before' = [before EXCEPT ![c] = confirmed]
            /\ UNCHANGED <<confirmed, buf, writes, age, out, now>>
(* The whole body has been read; it is added under the lock.                 *)
Add(c) == /\ pc[c] = "reading"
          /\ pc' = [pc EXCEPT ![c] = "added"]
          /\ buf' = EnsureNL(buf) \o Tokens(body[c])
          /\ writes' = writes + 1
          /\ UNCHANGED <<body, made, before, confirmed, age, out, now>>
Limit == writes >= MaxCount \/ MaxSize - Len(buf) <= Datagram \/ age >= MaxAge
(* The limits are checked under the lock, which was released in between.     *)
Check(c) == /\ pc[c] = "added"
            /\ pc' = [pc EXCEPT ![c] = "idle"]
            /\ confirmed' = confirmed \cup {body[c]}
            /\ IF Limit /\ buf # <<>> THEN Send ELSE UNCHANGED <<buf, writes, age, out>>
            /\ UNCHANGED <<body, made, before, now>>
AgeSend == buf # <<>> /\ age >= MaxAge /\ Send /\ UNCHANGED <<pc, body, made, before, confirmed, now>>
Tick == /\ now < MaxTime /\ now' = now + 1
        /\ buf # <<>> => age < MaxAge + Late       \* the age is looked at often enough
        /\ \A c \in Clients : pc[c] # "added"      \* handlers do not dawdle
        /\ age' = IF buf = <<>> THEN 0 ELSE age + 1
        /\ UNCHANGED <<pc, body, made, before, confirmed, buf, writes, out>>
Next == (\E c \in Clients : Begin(c) \/ Add(c) \/ Check(c)) \/ AgeSend \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(AgeSend) /\ WF_vars(Tick)
             /\ \A c \in Clients : WF_vars(Check(c)) /\ (c # Staller => WF_vars(Add(c)))

-----------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Stream == Flat(out) \o buf
Id(t) == [c |-> t.c, k |-> t.k, i |-> t.i]
(* Every published or pending line once; bodies contiguous and in order.     *)
Once == \A i, j \in 1..Len(Stream) : Id(Stream[i]) = Id(Stream[j]) => i = j
Contiguous == \A i \in 1..(Len(Stream) - 1) :
  LET x == Stream[i]
      y == Stream[i + 1]
  IN  IF y.i > 1 THEN x.c = y.c /\ x.k = y.k /\ x.i = y.i - 1
      ELSE ~\E t \in Range(Stream) : t.c = x.c /\ t.k = x.k /\ t.i = x.i + 1
NothingLost == \A c \in Clients : \A k \in 1..made[c] :
  (k < made[c] \/ pc[c] \in {"idle", "added"}) => \E t \in Range(Stream) : t.c = c /\ t.k = k
NeverJoined == \A m \in Range(out) \cup {buf} : \A i \in 1..(Len(m) - 1) : m[i].nl
InOrder == \A i, j \in 1..Len(Stream) :
  (Stream[i].c = Stream[j].c /\ Stream[i].k < Stream[j].k) => i < j
Confirmed == \A b \in confirmed : \E t \in Range(Stream) : t.c = b.c /\ t.k = b.k
(* A body begun after another was confirmed comes after it.                  *)
AfterConfirmed == \A c \in Clients : \A b \in before[c] : \A i, j \in 1..Len(Stream) :
  (Stream[i].c = c /\ Stream[i].k = made[c] /\ Stream[j].c = b.c /\ Stream[j].k = b.k) => j < i
(* Nothing is sent too late ...                                              *)
Prompt == /\ age <= MaxAge + Late
          /\ (writes >= MaxCount \/ MaxSize - Len(buf) <= Datagram) => buf = <<>> \/ \E c \in Clients : pc[c] = "added"
(* ... or too early.                                                         *)
NotEarly == [][out' # out => Limit]_vars
EventuallySent == <>(buf = <<>> \/ now = MaxTime)
=============================================================================
