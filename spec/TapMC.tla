-------------------------------- MODULE TapMC --------------------------------
(* Messages cross the bus and the tap works through them line by line, while *)
(* the reader of its output takes any amount of it at a time.                *)
EXTENDS Tap, FiniteSets
CONSTANTS MaxMsgs
VARIABLES sent, bus, todo, pipe, read
vars == <<sent, bus, todo, pipe, read>>
Msgs == {"", "\n", "a\n", "b\n", "a", "b", "a\nb\n", "b\na", "ba\n\nb\n"}
Hit(line) == IndexIn(line, {"a"}, 1) # 0
RECURSIVE All(_, _)
All(q, i) == IF i > Len(q) THEN "" ELSE Selected(q[i], Hit) \o All(q, i + 1)
Init == sent = <<>> /\ bus = <<>> /\ todo = <<>> /\ pipe = "" /\ read = ""
Publish == Len(sent) < MaxMsgs /\ \E m \in Msgs : sent' = Append(sent, m) /\ bus' = Append(bus, m) /\ UNCHANGED <<todo, pipe, read>>
Receive == bus # <<>> /\ todo = <<>> /\ todo' = Lines(bus[1]) /\ bus' = Tail(bus) /\ UNCHANGED <<sent, pipe, read>>
Line == /\ todo # <<>> /\ todo' = Tail(todo)
        /\ pipe' = IF Hit(TrimNL(todo[1])) THEN pipe \o todo[1] ELSE pipe
        /\ UNCHANGED <<sent, bus, read>>
Read == pipe # "" /\ \E n \in 1..Len(pipe) : read' = read \o UpTo(pipe, n) /\ pipe' = From(pipe, n + 1) /\ UNCHANGED <<sent, bus, todo>>
Next == Publish \/ Receive \/ Line \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Receive) /\ WF_vars(Line) /\ WF_vars(Read)
InOrder == StartsWith(All(sent, 1), read \o pipe)
Whole == bus = <<>> /\ todo = <<>> => read \o pipe = All(sent, 1)
(* Nothing the expression leaves out.                                        *)
OnlyHits == \A i \in 1..Len(Lines(read)) : Hit(Lines(read)[i]) \/ i = Len(Lines(read))
Printed == <>[](read = All(sent, 1))
=============================================================================
