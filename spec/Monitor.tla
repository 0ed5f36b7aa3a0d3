------------------------------- MODULE Monitor -------------------------------
(* The monitor: messages arrive in order and are applied under a lock, line  *)
(* by line; requests render the collection under the same lock and write the *)
(* result without it, which a slow client may delay for ever.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Values, MaxMsgs, Readers, Slow
Bad == [ok |-> FALSE, set |-> <<>>]
Good == {[ok |-> TRUE, set |-> f] : f \in UNION {[K -> Values] : K \in (SUBSET Keys) \ {{}}}}
VARIABLES sent,     \* every message published
          handled,  \* how many of them the monitor has dealt with
          metrics,  \* the collection
          todo,     \* keys of the message being applied that are still to do
          lock,     \* "free", "update" or a reader
          reading   \* reader -> "idle" | [since, text, upto]
vars == <<sent, handled, metrics, todo, lock, reading>>
Empty == <<>>
Over(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
RECURSIVE After(_)
After(n) == IF n = 0 THEN Empty ELSE IF sent[n].ok THEN Over(After(n - 1), sent[n].set) ELSE After(n - 1)
Idle == [at |-> "idle", since |-> 0, text |-> Empty]

Init == sent = <<>> /\ handled = 0 /\ metrics = Empty /\ todo = {} /\ lock = "free"
        /\ reading = [r \in Readers |-> Idle]
Publish == Len(sent) < MaxMsgs /\ \E m \in Good \cup {Bad} : sent' = Append(sent, m)
           /\ UNCHANGED <<handled, metrics, todo, lock, reading>>
Waiting == handled < Len(sent)
Next1 == sent[handled + 1]
Discard == /\ Waiting /\ ~Next1.ok /\ lock # "update"
           /\ handled' = handled + 1 /\ UNCHANGED <<sent, metrics, todo, lock, reading>>
Begin == /\ Waiting /\ Next1.ok /\ lock = "free"
         /\ lock' = "update" /\ todo' = DOMAIN Next1.set /\ UNCHANGED <<sent, handled, metrics, reading>>
Apply == /\ lock = "update" /\ todo # {}
         /\ \E k \in todo : metrics' = Over(metrics, k :> Next1.set[k]) /\ todo' = todo \ {k}
         /\ UNCHANGED <<sent, handled, lock, reading>>
Finish == /\ lock = "update" /\ todo = {}
          /\ lock' = "free" /\ handled' = handled + 1 /\ UNCHANGED <<sent, metrics, todo, reading>>
Request(r) == /\ reading[r].at = "idle"
              /\ reading' = [reading EXCEPT ![r] = [at |-> "asked", since |-> handled, text |-> Empty]]
              /\ UNCHANGED <<sent, handled, metrics, todo, lock>>
Lock(r) == /\ reading[r].at = "asked" /\ lock = "free" /\ lock' = r
           /\ UNCHANGED <<sent, handled, metrics, todo, reading>>
Rendering(r) == /\ lock = r /\ lock' = "free"
                /\ reading' = [reading EXCEPT ![r].at = "writing", ![r].text = metrics]
                /\ UNCHANGED <<sent, handled, metrics, todo>>
Answer(r) == /\ reading[r].at = "writing"
             /\ reading' = [reading EXCEPT ![r] = Idle]
             /\ UNCHANGED <<sent, handled, metrics, todo, lock>>
Next == \/ Publish \/ Discard \/ Begin \/ Apply \/ Finish
        \/ \E r \in Readers : Request(r) \/ Lock(r) \/ Rendering(r) \/ Answer(r)
Handling == Discard \/ Begin \/ Apply \/ Finish
Spec == Init /\ [][Next]_vars /\ SF_vars(Handling)
        /\ \A r \in Readers : SF_vars(Lock(r)) /\ WF_vars(Rendering(r)) /\ (r \in Slow \/ WF_vars(Answer(r)))

(* What is served is the result of a prefix of the messages, one not older   *)
(* than what had been dealt with when it was asked for.                      *)
Prefix == \A r \in Readers : reading[r].at = "writing" =>
            \E n \in reading[r].since..Len(sent) : reading[r].text = After(n)
Latest == lock # "update" => metrics = After(handled)
(* Everything published is dealt with, whatever clients do.                  *)
Progress == []<>(handled = Len(sent))
Answered == \A r \in Readers \ Slow : (reading[r].at = "asked") ~> (reading[r].at = "idle")
=============================================================================
