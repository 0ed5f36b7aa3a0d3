---------------------------- MODULE TraceConfig -----------------------------
(* Configurations loaded and validated by the real code.                     *)
EXTENDS TraceBase, Config
ASSUME InitProgress
TraceInit == l = 1
Own == IF Ev.own.state = "ok" THEN Ev.own.opts ELSE <<>>
Common == IF Ev.common.state = "ok" THEN Ev.common.opts ELSE <<>>
RulesOk(c, given) ==
  c.mode \in {"filter", "writer"} =>
    Eq("the rules can be used", IF \A i \in 1..Len(given) : Usable(given[i]) THEN "yes" ELSE "no", Ev.rules)
Plain(rs) == [i \in 1..Len(rs) |-> [type |-> rs[i].type, match |-> rs[i].match, tags |-> rs[i].tags, subject |-> rs[i].subject]]
Load ==
  LET e == Effective(Common, Own, Ev.file)
      user == IF e.mode = "writer" THEN Ev.user ELSE ""
      pass == IF e.mode = "writer" THEN Ev.pass ELSE ""
      ok == Ev.own.state = "ok" /\ Ev.common.state \in {"ok", "absent"} /\ e.mode # "" /\ Valid(e, user, pass)
  IN /\ Eq("accepted", ok, Ev.ok)
     /\ ok => /\ \A o \in Options : Eq(o, IF o = "rule" THEN Plain(e.rule) ELSE e[o], Ev.got[o])
              /\ Eq("user", user, Ev.got.user) /\ Eq("password", pass, Ev.got.pass)
              /\ RulesOk(e, e.rule)
Loaded == Is("load") /\ Advance /\ Load = TRUE
Checked == /\ Is("check") /\ Advance
           /\ Eq("valid", Valid(Ev.conf, Ev.user, Ev.pass), Ev.ok)
           /\ Ev.ok => RulesOk(Ev.conf, Ev.conf.rule)
TraceNext == Loaded \/ Checked
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
