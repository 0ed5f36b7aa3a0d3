----------------------------- MODULE TraceLookup -----------------------------
(* Real rule sets asked for the rule of a line.                              *)
EXTENDS TraceBase, Rules
ASSUME InitProgress
VARIABLE rules
TraceInit == l = 1 /\ rules = <<>>
RulesGiven == /\ Is("rules") /\ Advance /\ rules' = Ev.rules
              /\ Eq("number of rules", Len(Ev.rules), Ev.count)
              /\ Eq("subjects", [i \in 1..Len(Ev.rules) |-> Ev.rules[i].subject], Ev.subjects)
LookedUp == /\ Is("lookup") /\ Advance /\ UNCHANGED rules
            /\ Eq("the line is unchanged", TRUE, Ev.kept)
            /\ Eq("rule", Lookup(rules, Ev.line) - 1, Ev.rule)
TraceNext == RulesGiven \/ LookedUp
TraceSpec == TraceInit /\ [][TraceNext]_<<l, rules>>
=============================================================================
