---------------------------- MODULE TraceProbes -----------------------------
(* Recorded use of the probes: each of the two states is a register that is  *)
(* set and read concurrently; a request is answered according to its value   *)
(* at some moment while the request was being made.                          *)
EXTENDS TraceBase, FiniteSets
ASSUME InitProgress
VARIABLES alive, ready, bound, \* bound: "no", "yes", or "maybe" (it has not been seen yet)
          pend                 \* operations in progress
vars == <<l, alive, ready, bound, pend>>
TraceInit == l = 1 /\ alive = FALSE /\ ready = FALSE /\ bound = "no" /\ pend = <<>>
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
New == Is("probes") /\ Advance /\ alive' = FALSE /\ ready' = FALSE /\ bound' = "no" /\ pend' = <<>>
Listen == Is("listen") /\ Advance /\ alive' = TRUE /\ ready' = FALSE /\ bound' = "maybe" /\ UNCHANGED pend
Open == Is("open") /\ Advance /\ bound' = (IF Ev.bound THEN "yes" ELSE bound) /\ UNCHANGED <<alive, ready, pend>>
Closing == Is("close") /\ Advance /\ bound' = "maybe" /\ UNCHANGED <<alive, ready, pend>>
Closed == Is("closed") /\ Advance /\ bound' = "no" /\ UNCHANGED <<alive, ready, pend>>
Begin == /\ (Is("set") \/ Is("get")) /\ Advance
         /\ pend' = Put(pend, Ev.id, [o |-> Ev, took |-> FALSE, codes |-> {}])
         /\ UNCHANGED <<alive, ready, bound>>
Answer(what) ==
  LET open == CASE what = "/healthz" -> IF alive THEN {200} ELSE {503}
                [] what = "/readyz" -> IF ready THEN {200} ELSE {503}
                [] OTHER -> {404}
  IN IF bound = "no" THEN {0} ELSE IF bound = "yes" THEN open ELSE open \cup {0}
(* An operation takes effect somewhere between its beginning and its end.    *)
Effect(id) == /\ ~pend[id].took
              /\ IF pend[id].o.e = "set"
                 THEN /\ alive' = IF pend[id].o.what = "alive" THEN pend[id].o.to ELSE alive
                      /\ ready' = IF pend[id].o.what = "ready" THEN pend[id].o.to ELSE ready
                      /\ pend' = [pend EXCEPT ![id].took = TRUE]
                 ELSE /\ pend' = [pend EXCEPT ![id].took = TRUE, ![id].codes = Answer(pend[id].o.what)]
                      /\ UNCHANGED <<alive, ready>>
              /\ UNCHANGED <<l, bound>>
End == /\ (Is("done") \/ Is("got")) /\ Advance
       /\ pend[Ev.id].took
       /\ Ev.e = "got" => Req("answer of a probe", Ev.code \in pend[Ev.id].codes, <<pend[Ev.id].o.what, Ev.code>>)
       /\ pend' = TLCEval([k \in DOMAIN pend \ {Ev.id} |-> pend[k]])
       /\ UNCHANGED <<alive, ready, bound>>
Sockets == Is("sockets") /\ Advance /\ Eq("ports opened without a port configured", 0, Ev.more) /\ UNCHANGED <<alive, ready, bound, pend>>
(* (Effects are only worth exploring when something is about to end.)        *)
TraceNext == New \/ Listen \/ Open \/ Closing \/ Closed \/ Begin \/ End \/ Sockets
             \/ (More /\ Trace[l].e \in {"done", "got"} /\ \E id \in DOMAIN pend : Effect(id))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
