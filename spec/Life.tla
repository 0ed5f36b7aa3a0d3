------------------------------- MODULE Life ---------------------------------
(* Design of the components' life cycle and of how they share messages.      *)
(* Members of a group share what is published on the subject, everyone else  *)
(* is a group of its own.  A subscription counts once the server knows it;   *)
(* a member's messages wait in the inbox of its subscription, are passed on  *)
(* by the subscription's goroutine into a bounded queue, and are handled by  *)
(* a worker.  Stopping ends the worker, then the connection.                 *)
(* A member may lose the bus: the server forgets it, and it comes back by    *)
(* itself.  Producers which have lost it keep what they are given.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Members, Group,     \* Group[m]
          MaxMsg, Cap,        \* messages; capacity of the queue
          MaxStarts,          \* how often one member is started
          MaxAway,            \* how often the bus is lost
          Record              \* keep a script of what the outside world does
VARIABLES st,       \* "off", "starting", "asked", "known", "up", "stopping", "idle", "stopped"
          alive, ready, port,
          sub,      \* the server knows the subscription
          inbox, held, jobs,
          handled,  \* member -> set of messages it has handled
          pub,      \* number of messages published
          owed,     \* message -> groups which must handle it
          given,    \* message -> members it was given to
          lost,     \* message -> members which were stopped before they handled it
          conn,     \* members on the bus; 0 stands for the producer
          kept,     \* what the producer has accepted and not published
          away,     \* how often the bus was lost
          starts, script
vars == <<st, alive, ready, port, sub, inbox, held, jobs, handled, pub, owed, given, lost, conn, kept, away, starts, script>>
net == <<conn, kept, away>>
Groups == {Group[m] : m \in Members}
Msgs == 1..MaxMsg
Nil == 0

Init == /\ st = [m \in Members |-> "off"] /\ alive = [m \in Members |-> FALSE] /\ ready = [m \in Members |-> FALSE]
        /\ port = [m \in Members |-> FALSE] /\ sub = [m \in Members |-> FALSE]
        /\ inbox = [m \in Members |-> <<>>] /\ held = [m \in Members |-> Nil] /\ jobs = [m \in Members |-> <<>>]
        /\ handled = [m \in Members |-> {}] /\ pub = 0
        /\ owed = [k \in Msgs |-> {}] /\ given = [k \in Msgs |-> {}] /\ lost = [k \in Msgs |-> {}]
        /\ conn = {0} /\ kept = 0 /\ away = 0
        /\ starts = [m \in Members |-> 0] /\ script = <<>>
Note(x) == script' = IF Record THEN Append(script, x) ELSE script

Start(m) == /\ st[m] \in {"off", "stopped"} /\ starts[m] < MaxStarts
            /\ st' = [st EXCEPT ![m] = "starting"] /\ starts' = [starts EXCEPT ![m] = @ + 1]
            /\ port' = [port EXCEPT ![m] = TRUE] /\ alive' = [alive EXCEPT ![m] = TRUE] /\ ready' = [ready EXCEPT ![m] = FALSE]
            /\ Note([a |-> "start", m |-> m])
            /\ conn' = conn \cup {m}
            /\ UNCHANGED <<kept, away, sub, inbox, held, jobs, handled, pub, owed, given, lost>>
Subscribe(m) == /\ st[m] = "starting" /\ st' = [st EXCEPT ![m] = "asked"]
                /\ UNCHANGED <<alive, ready, port, sub, inbox, held, jobs, handled, pub, owed, given, lost, starts, script, net>>
Known(m) == /\ st[m] = "asked" /\ ~sub[m] /\ m \in conn /\ sub' = [sub EXCEPT ![m] = TRUE]
            /\ UNCHANGED <<st, alive, ready, port, inbox, held, jobs, handled, pub, owed, given, lost, starts, script, net>>
(* The answer to the flush: the server has seen everything sent before.      *)
Flushed(m) == /\ st[m] = "asked" /\ sub[m] /\ m \in conn /\ st' = [st EXCEPT ![m] = "known"]
              /\ UNCHANGED <<alive, ready, port, sub, inbox, held, jobs, handled, pub, owed, given, lost, starts, script, net>>
BecomeReady(m) == /\ st[m] = "known" /\ st' = [st EXCEPT ![m] = "up"] /\ ready' = [ready EXCEPT ![m] = TRUE]
                  /\ Note([a |-> "ready", m |-> m])
                  /\ UNCHANGED <<alive, port, sub, inbox, held, jobs, handled, pub, owed, given, lost, starts, net>>

Takers(g) == {m \in Members : Group[m] = g /\ sub[m]}
Offer == /\ 0 \notin conn /\ pub + kept < MaxMsg /\ kept' = kept + 1 /\ Note([a |-> "offer", m |-> 0])
         /\ UNCHANGED <<st, alive, ready, port, sub, inbox, held, jobs, handled, pub, owed, given, lost, conn, away, starts>>
Publish == /\ 0 \in conn /\ pub + (IF kept = 0 THEN 0 ELSE kept - 1) < MaxMsg /\ pub' = pub + 1
           /\ kept' = IF kept = 0 THEN 0 ELSE kept - 1
           /\ \E choice \in [Groups -> Members \cup {Nil}] :
                /\ \A g \in Groups : IF Takers(g) = {} THEN choice[g] = Nil ELSE choice[g] \in Takers(g)
                /\ LET to == {choice[g] : g \in Groups} \ {Nil} IN
                   /\ inbox' = [m \in Members |-> IF m \in to THEN Append(inbox[m], pub + 1) ELSE inbox[m]]
                   /\ given' = [given EXCEPT ![pub + 1] = to]
           /\ owed' = [owed EXCEPT ![pub + 1] = {Group[m] : m \in {m \in Members : ready[m] /\ m \in conn}}]
           /\ IF kept = 0 THEN Note([a |-> "publish", m |-> 0]) ELSE script' = script
           /\ UNCHANGED <<st, alive, ready, port, sub, held, jobs, handled, lost, starts, conn, away>>
(* The bus is lost by some, when nobody is starting, and found again.        *)
Lose == /\ away < MaxAway /\ \A m \in Members : st[m] \notin {"starting", "asked", "known"}
        /\ \E gone \in SUBSET conn \ {{}} : /\ conn' = conn \ gone
                                          /\ sub' = [m \in Members |-> sub[m] /\ m \notin gone]
                                          /\ Note([a |-> "away", m |-> gone])
        /\ away' = away + 1
        /\ UNCHANGED <<st, alive, ready, port, inbox, held, jobs, handled, pub, owed, given, lost, kept, starts>>
Rejoin(m) == /\ m \notin conn /\ (m # 0 => st[m] \in {"up", "stopping", "idle"})
             /\ conn' = conn \cup {m} /\ sub' = IF m = 0 THEN sub ELSE [sub EXCEPT ![m] = TRUE]
             /\ Note([a |-> "back", m |-> m])
             /\ UNCHANGED <<st, alive, ready, port, inbox, held, jobs, handled, pub, owed, given, lost, kept, away, starts>>
Take(m) == /\ inbox[m] # <<>> /\ held[m] = Nil /\ st[m] # "stopped"
           /\ held' = [held EXCEPT ![m] = Head(inbox[m])] /\ inbox' = [inbox EXCEPT ![m] = Tail(@)]
           /\ UNCHANGED <<st, alive, ready, port, sub, jobs, handled, pub, owed, given, lost, starts, script, net>>
Push(m) == /\ held[m] # Nil /\ Len(jobs[m]) < Cap
           /\ jobs' = [jobs EXCEPT ![m] = Append(@, held[m])] /\ held' = [held EXCEPT ![m] = Nil]
           /\ UNCHANGED <<st, alive, ready, port, sub, inbox, handled, pub, owed, given, lost, starts, script, net>>
(* Nobody will make room any more.                                           *)
GiveUp(m) == /\ held[m] # Nil /\ st[m] \in {"stopping", "idle", "stopped"}
             /\ lost' = [lost EXCEPT ![held[m]] = @ \cup {m}] /\ held' = [held EXCEPT ![m] = Nil]
             /\ UNCHANGED <<st, alive, ready, port, sub, inbox, jobs, handled, pub, owed, given, starts, script, net>>
Work(m) == /\ jobs[m] # <<>> /\ st[m] \in {"starting", "asked", "known", "up", "stopping"}
           /\ handled' = [handled EXCEPT ![m] = @ \cup {Head(jobs[m])}] /\ jobs' = [jobs EXCEPT ![m] = Tail(@)]
           /\ UNCHANGED <<st, alive, ready, port, sub, inbox, held, pub, owed, given, lost, starts, script, net>>

Stop(m) == /\ st[m] = "up" /\ st' = [st EXCEPT ![m] = "stopping"]
           /\ ready' = [ready EXCEPT ![m] = FALSE] /\ alive' = [alive EXCEPT ![m] = FALSE]
           /\ Note([a |-> "stop", m |-> m])
           /\ UNCHANGED <<port, sub, inbox, held, jobs, handled, pub, owed, given, lost, starts, net>>
WorkerEnds(m) == /\ st[m] = "stopping" /\ st' = [st EXCEPT ![m] = "idle"]
                 /\ UNCHANGED <<alive, ready, port, sub, inbox, held, jobs, handled, pub, owed, given, lost, starts, script, net>>
Left(m) == {inbox[m][k] : k \in 1..Len(inbox[m])} \cup {jobs[m][k] : k \in 1..Len(jobs[m])}
Close(m) == /\ st[m] = "idle" /\ held[m] = Nil /\ st' = [st EXCEPT ![m] = "stopped"]
            /\ sub' = [sub EXCEPT ![m] = FALSE] /\ port' = [port EXCEPT ![m] = FALSE] /\ conn' = conn \ {m}
            /\ lost' = [k \in Msgs |-> IF k \in Left(m) THEN lost[k] \cup {m} ELSE lost[k]]
            /\ inbox' = [inbox EXCEPT ![m] = <<>>] /\ jobs' = [jobs EXCEPT ![m] = <<>>]
            /\ UNCHANGED <<alive, ready, held, handled, pub, owed, given, kept, away, starts, script>>
Inner(m) == Subscribe(m) \/ Known(m) \/ Flushed(m) \/ BecomeReady(m) \/ Take(m) \/ Push(m) \/ GiveUp(m) \/ Work(m) \/ WorkerEnds(m) \/ Close(m)
Done == pub = MaxMsg /\ UNCHANGED vars
Next == Publish \/ Offer \/ Lose \/ (\E m \in Members \cup {0} : Rejoin(m)) \/ (\E m \in Members : Start(m) \/ Stop(m) \/ Inner(m)) \/ Done
Spec == Init /\ [][Next]_vars /\ (\A m \in Members : WF_vars(Inner(m)) /\ WF_vars(Rejoin(m))) /\ WF_vars(Rejoin(0)) /\ WF_vars(kept > 0 /\ Publish)

-----------------------------------------------------------------------------
(* Ready means that nothing published from now on is missed.                 *)
ReadyIsSubscribed == \A m \in Members : ready[m] => (m \in conn => sub[m]) /\ alive[m] /\ port[m]
OnTheBus == \A m \in Members : sub[m] => m \in conn
(* Each message goes to at most one member of each group ...                 *)
Shared == \A k \in Msgs : \A m, n \in given[k] : Group[m] = Group[n] => m = n
HandledGiven == \A m \in Members : \A k \in handled[m] : m \in given[k]
(* ... and to one of each that had a ready member.                           *)
NoneMissed == \A k \in Msgs : \A g \in owed[k] : \E m \in given[k] : Group[m] = g
(* A message given to a member is handled, waits with it, or was lost since  *)
(* the member was stopped.                                                   *)
Accounted == \A k \in Msgs : \A m \in given[k] :
  (IF k \in handled[m] THEN 1 ELSE 0) + (IF m \in lost[k] THEN 1 ELSE 0)
  + (IF k \in Left(m) \/ held[m] = k THEN 1 ELSE 0) = 1
LostOnlyByStop == \A k \in Msgs : \A m \in lost[k] : starts[m] > 1 \/ st[m] \in {"stopping", "idle", "stopped"}
StoppedIsGone == \A m \in Members : st[m] \in {"off", "stopped"} => ~sub[m] /\ ~port[m] /\ ~alive[m] /\ ~ready[m] /\ held[m] = Nil /\ Left(m) = {}
NothingAfterStop == [][\A m \in Members : st[m] \in {"off", "stopped"} => handled'[m] = handled[m]]_vars
(* Probes change only the documented way.                                    *)
ProbesFollow == [][\A m \in Members :
  /\ (alive[m] # alive'[m]) => (st'[m] = "starting" /\ alive'[m]) \/ (st'[m] = "stopping" /\ ~alive'[m])
  /\ (ready[m] # ready'[m]) => (st'[m] = "up" /\ ready'[m]) \/ (st'[m] = "stopping" /\ ~ready'[m])]_vars
StopEnds == \A m \in Members : st[m] = "stopping" ~> st[m] # "stopping" /\ st[m] # "idle"
StartEnds == \A m \in Members : st[m] = "starting" ~> st[m] = "up"
(* Nobody stays away, and what was accepted meanwhile is published.          *)
GoesOn == \A m \in Members : (ready[m] /\ m \notin conn) ~> (~ready[m] \/ sub[m])
KeptIsPublished == kept > 0 ~> kept = 0
EventuallyHandled == \A k \in Msgs : \A m \in Members : [](m \in given[k] => <>(k \in handled[m] \/ m \in lost[k]))

Scripted == (pub = MaxMsg /\ kept = 0 /\ Record /\ (\A m \in Members : st[m] = "up" => m \in conn) /\ \A m \in Members : st[m] \in {"off", "up", "stopped"}) => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
