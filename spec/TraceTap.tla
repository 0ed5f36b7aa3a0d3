------------------------------ MODULE TraceTap -------------------------------
(* What was published and what the tap's output showed.                      *)
EXTENDS TraceBase, Tap, Regex
ASSUME InitProgress
VARIABLES conf, owed
vars == <<l, conf, owed>>
TraceInit == l = 1 /\ conf = [re |-> "all"] /\ owed = ""
Hit(line) == Finds(conf.ast, line)
Owes(msg) == IF conf.re = "all" THEN msg ELSE Selected(msg, Hit)
Started == Is("start") /\ Advance /\ conf' = Ev /\ owed' = ""
Published == /\ Is("pub") /\ Advance /\ UNCHANGED conf
             /\ IF Ev.here THEN \E s \in {Owes(Ev.data)} : owed' = owed \o s ELSE UNCHANGED owed
Seen == /\ Is("out") /\ Advance /\ UNCHANGED conf
        /\ Req("printed", StartsWith(owed, Ev.data), <<"printed", Ev.data, "owed", owed>>)
        /\ owed' = From(owed, Len(Ev.data) + 1)
Done == Is("end") /\ Advance /\ Eq("still to be printed", "", owed) /\ Eq("state", "running", Ev.state) /\ UNCHANGED <<conf, owed>>
TraceNext == Started \/ Published \/ Seen \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
