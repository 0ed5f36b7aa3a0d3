----------------------------- MODULE Downsampler -----------------------------
(* Design of the downsampler: lines are assigned to the previous, current or *)
(* next period; when the current one ends, the previous one is published.    *)
(* Time is counted in ticks; a period takes Period ticks.                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Period, MaxTime, NLines, Start
VARIABLES now, cur,       \* the time; the end of the current period
          buckets,        \* end of period -> lines collected
          fate,           \* line -> "new", <<"in", end>> or "rejected"
          seen,           \* line -> timestamp, time at which it was seen, and whether no period end was pending
          out             \* sequence of published aggregates [end, lines, at]
vars == <<now, cur, buckets, fate, seen, out>>
Lines == 1..NLines

EndOf(t) == (t \div Period) * Period + Period
Init == /\ now = Start /\ cur = EndOf(Start)
        /\ buckets = [e \in {cur - Period, cur, cur + Period} |-> {}]
        /\ fate = [i \in Lines |-> <<"new">>] /\ seen = [i \in Lines |-> <<>>] /\ out = <<>>

(* A line with a timestamp (any time).                                       *)
Receive(i, ts) ==
  /\ fate[i] = <<"new">>
  /\ \A j \in 1..(i - 1) : fate[j] # <<"new">>
  /\ seen' = [seen EXCEPT ![i] = <<ts, now, now < cur>>]
  /\ IF EndOf(ts) \in DOMAIN buckets
     THEN /\ buckets' = [buckets EXCEPT ![EndOf(ts)] = @ \cup {i}]
          /\ fate' = [fate EXCEPT ![i] = <<"in", EndOf(ts)>>]
     ELSE fate' = [fate EXCEPT ![i] = <<"rejected">>] /\ UNCHANGED buckets
  /\ UNCHANGED <<now, cur, out>>
Shift ==
  /\ now >= cur
  /\ cur' = cur + Period
  /\ buckets' = [e \in {cur, cur + Period, cur + 2 * Period} |-> IF e \in DOMAIN buckets THEN buckets[e] ELSE {}]
  /\ out' = IF buckets[cur - Period] = {} THEN out
            ELSE Append(out, [end |-> cur - Period, lines |-> buckets[cur - Period], at |-> now])
  /\ UNCHANGED <<now, fate, seen>>
(* The end of a period is noticed promptly; up to `Late` ticks of delay are  *)
(* part of the model through Receive happening before Shift.                 *)
Tick == /\ now < MaxTime /\ now < cur + Period - 1 /\ now' = now + 1 /\ UNCHANGED <<cur, buckets, fate, seen, out>>
Next == Tick \/ Shift \/ \E i \in Lines, ts \in 0..MaxTime : Receive(i, ts)
Spec == Init /\ [][Next]_vars /\ WF_vars(Shift) /\ WF_vars(Tick)

-----------------------------------------------------------------------------
Three == DOMAIN buckets = {cur - Period, cur, cur + Period} /\ cur % Period = 0
Published(i) == {k \in 1..Len(out) : i \in out[k].lines}
(* Every accepted line is in exactly one period, its own.                    *)
OnePlace == \A i \in Lines :
  Cardinality(Published(i)) + Cardinality({e \in DOMAIN buckets : i \in buckets[e]}) = (IF fate[i][1] = "in" THEN 1 ELSE 0)
RightPeriod == \A i \in Lines : fate[i][1] = "in" =>
  /\ fate[i][2] = EndOf(seen[i][1])
  /\ \A k \in Published(i) : out[k].end = fate[i][2]
(* Rejected is what does not belong to the previous, this or the next period *)
(* (the ones a period earlier while the end of a period is being noticed).   *)
InWindow(ts, t) == EndOf(ts) \in {EndOf(t) - Period, EndOf(t), EndOf(t) + Period}
Window == \A i \in Lines : fate[i][1] # "new" =>
  LET ts == seen[i][1]
      t == seen[i][2]
  IN  IF seen[i][3] THEN (fate[i][1] = "in") <=> InWindow(ts, t)
      ELSE (fate[i][1] = "in") => InWindow(ts, t) \/ InWindow(ts + Period, t)
OncePerPeriod == \A j, k \in 1..Len(out) : j < k => out[j].end < out[k].end
NotEarly == \A k \in 1..Len(out) : out[k].at >= out[k].end + Period
EventuallyPublished == \A i \in Lines : [](fate[i][1] = "in" => <>(Published(i) # {} \/ now = MaxTime))
=============================================================================
