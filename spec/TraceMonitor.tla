---------------------------- MODULE TraceMonitor ----------------------------
(* Recorded executions of a real monitor: messages published to it, requests *)
(* for its metrics and what they returned.  The n-th state is what n messages *)
(* add up to; a response shows one of the states, not one older than any     *)
(* shown before it was asked for.  Also: single messages given to the parser.*)
EXTENDS TraceBase, Metrics
ASSUME InitProgress
VARIABLES hist,    \* the states since the start, as sets of lines
          set,     \* the last of them
          floor,   \* the latest state that has been shown
          asked,   \* requests in progress: id -> state that had been shown
          order    \* state -> the lines in the order in which they were shown
vars == <<l, hist, set, floor, asked, order>>
TraceInit == l = 1 /\ hist = <<{}>> /\ set = <<>> /\ floor = 1 /\ asked = <<>> /\ order = <<>>
Start == /\ Is("start") /\ Advance /\ hist' = <<{}>> /\ set' = <<>> /\ floor' = 1 /\ asked' = <<>> /\ order' = <<>>

Pub == /\ Is("pub") /\ Advance
       /\ LET m == TLCEval(Message(Ev.lines)) IN
          /\ Assert(m.ok => m.strict, <<"ambiguous metrics in a script", Ev>>)
          /\ LET s == TLCEval(IF m.ok THEN Overlay(set, m.set) ELSE set) IN
             /\ set' = s /\ hist' = Append(hist, TLCEval(Served(s)))
       /\ UNCHANGED <<floor, asked, order>>
Ask == /\ Is("req") /\ Advance /\ asked' = asked @@ (Ev.id :> floor) /\ UNCHANGED <<hist, set, floor, order>>
Shown == {Ev.lines[i] : i \in 1..Len(Ev.lines)}
RECURSIVE Find(_, _)
Find(s, k) == IF k > Len(hist) THEN 0 ELSE IF hist[k] = s THEN k ELSE Find(s, k + 1)
Resp == /\ Is("resp") /\ Advance
        /\ Eq("status", 200, Ev.status)
        /\ Eq("other metrics", Ev.others, Ev.filler)
        /\ LET s == TLCEval({Ev.lines[i] : i \in 1..Len(Ev.lines)})
               from == IF Ev.settled THEN Len(hist) ELSE asked[Ev.id]
               k == TLCEval(Find(s, from))
           IN /\ Req("a line is shown twice", Cardinality(s) = Len(Ev.lines), Ev.lines)
              /\ Req("not what the messages add up to", k > 0, <<"from", from, hist[from], "to", Len(hist), hist[Len(hist)]>>)
              /\ LET same == {j \in DOMAIN order : hist[j] = s} IN
                 IF same = {} THEN order' = order @@ (k :> Ev.lines)
                 ELSE /\ Eq("order of lines", order[CHOOSE j \in same : TRUE], Ev.lines) /\ order' = order
              /\ floor' = IF k > floor THEN k ELSE floor
        /\ asked' = [i \in DOMAIN asked \ {Ev.id} |-> asked[i]]
        /\ UNCHANGED <<hist, set>>
NoAnswer == Is("noanswer") /\ Req("no answer", FALSE, Ev) /\ UNCHANGED vars

(* One message parsed and rendered, alone and after being put into a set     *)
(* several times.                                                            *)
Parse == /\ Is("parse") /\ Advance
         /\ LET m == TLCEval(Message(Lines(Ev.s))) IN
            IF ~m.ok THEN Req("malformed but accepted", ~Ev.ok, Ev)
            ELSE IF ~m.strict THEN TRUE
            ELSE /\ Req("well-formed but refused", Ev.ok, Ev)
                 /\ Eq("rendered", Served(m.set), {Ev.lines[i] : i \in 1..Len(Ev.lines)})
                 /\ Eq("number of lines", Cardinality(DOMAIN m.set), Len(Ev.lines))
                 /\ Eq("the same again", TRUE, Ev.same)
         /\ Eq("the text is unchanged", TRUE, Ev.kept \/ ~Ev.ok)
         /\ UNCHANGED <<hist, set, floor, asked, order>>
TraceNext == Start \/ Pub \/ Ask \/ Resp \/ NoAnswer \/ Parse
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
