------------------------------ MODULE ConfigMC ------------------------------
(* Every combination of some options in the two files.                       *)
EXTENDS Config, FiniteSets, TLC
VARIABLES common, own
vars == <<common, own>>
Rule(t, m, s) == [type |-> t, match |-> m, tags |-> IF t = "tags" THEN <<<<"a", "b">>>> ELSE <<>>, subject |-> s]
Values == [mode |-> {"listener", "filter", "writer", "downsampler", "monitor"}, port |-> {"0", "1", "65536"}, workers |-> {"0", "3"},
           rule |-> {<<>>, <<Rule("basic", "x", "")>>, <<Rule("tags", "", "s"), Rule("regex", "y", "s")>>}, downsample_period |-> {"0", "5"}]
Names == DOMAIN Values
Init == common = <<>> /\ own = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Common == \E o \in Names : o \notin DOMAIN common /\ \E v \in Values[o] : common' = Put(common, o, v) /\ UNCHANGED own
Own == \E o \in Names : o \notin DOMAIN own /\ \E v \in Values[o] : own' = Put(own, o, v) /\ UNCHANGED common
Next == Common \/ Own
Spec == Init /\ [][Next]_vars
Few == Cardinality(DOMAIN own) + Cardinality(DOMAIN common) <= 3
E == Effective(common, own, "/d/c.toml")
Dynamic == {"name", "batch_max_size", "port", "downsample_period"}
OwnWins == \A o \in DOMAIN own \ Dynamic : E[o] = own[o]
CommonNext == \A o \in DOMAIN common \ (DOMAIN own \cup Dynamic) : E[o] = common[o]
DefaultLast == \A o \in Options \ (DOMAIN own \cup DOMAIN common \cup Dynamic) : E[o] = Default[o]
(* The dynamic ones: zero is never left where the mode needs a value, and a  *)
(* value given is used.                                                      *)
Filled == /\ E.name = "c" /\ E.batch_max_size # "0"
          /\ E.mode \in {"listener", "listener_http", "monitor"} => E.port # "0"
          /\ E.mode = "downsampler" => E.downsample_period # "0"
          /\ "port" \in DOMAIN own /\ own.port # "0" => E.port = own.port
(* Complete in itself, a file needs no common one; repeating changes nothing.*)
Complete == Effective(common, E, "/d/c.toml") = E /\ Effective(E, <<>>, "/d/c.toml") = E
(* Filters and writers take the same rules but for the subject.              *)
ASSUME \A t \in {"basic", "tags", "regex", "negregex", "odd", ""} : \A m \in {"", "x"} : \A g \in {<<>>, <<<<"a">>>>, <<<<"a", "b">>>>} :
  LET r == [type |-> t, match |-> m, tags |-> g]
      f == [Default EXCEPT !.mode = "filter", !.rule = <<r @@ [subject |-> "s"]>>]
      w == [Default EXCEPT !.mode = "writer", !.rule = <<r @@ [subject |-> ""]>>]
  IN Valid(f, "", "") = Valid(w, "", "") /\ ~Valid([f EXCEPT !.rule[1].subject = ""], "", "") /\ ~Valid([w EXCEPT !.rule[1].subject = "s"], "", "")
=============================================================================
