------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications: reading a recorded execution,    *)
(* tracking how far it can be explained and accepting it.                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE l                      \* next line of the trace to be explained

Trace == ndJsonDeserialize(IOEnv.TRACE)
More == l <= Len(Trace)
Ev == Trace[l]
Is(name) == More /\ Trace[l].e = name
Advance == l' = l + 1

(* An equation between the specification's value and the recorded one, which *)
(* reports the difference when it fails.                                     *)
Eq(what, expected, actual) ==
  IF expected = actual THEN TRUE ELSE (PrintT("MISMATCH " \o ToString(l) \o " " \o what \o ": expected " \o ToString(expected) \o " actual " \o ToString(actual)) /\ FALSE)
Req(what, cond, info) ==
  IF cond THEN TRUE ELSE (PrintT("MISMATCH " \o ToString(l) \o " " \o what \o ": " \o ToString(info)) /\ FALSE)

(* Register 1 holds the furthest line reached (requires one TLC worker).     *)
InitProgress == TLCSet(1, 1)
Progress ==
  /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
  /\ (IF l > Len(Trace) THEN TLCSet("exit", TRUE) ELSE TRUE)
Accepted ==
  PrintT(<<"FURTHEST", TLCGet(1), Len(Trace)>>) /\ TLCGet(1) > Len(Trace)
=============================================================================
