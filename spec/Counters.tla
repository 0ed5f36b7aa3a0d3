------------------------------ MODULE Counters ------------------------------
(* Counters shared by threads: increments are atomic additions, maximum      *)
(* updates a load followed by a compare-and-swap that is repeated when it    *)
(* fails, snapshots read one counter after the other.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, NCounters, Programs, Initials
\* a program is a sequence of <<"inc", c>>, <<"max", c, v>>, <<"get", c>>, <<"snap">>
VARIABLES val, prog, pc, seen, got, results, past
\* past: for each counter every value it ever had, in order; got: parts of a snapshot
vars == <<val, prog, pc, seen, got, results, past>>
Cs == 1..NCounters
Init == /\ val \in [Cs -> Initials] /\ prog \in [Threads -> Programs]
        /\ pc = [t \in Threads |-> 1] /\ seen = [t \in Threads |-> <<>>] /\ got = [t \in Threads |-> <<>>]
        /\ results = [t \in Threads |-> <<>>] /\ past = [c \in Cs |-> <<val[c]>>]
Busy(t) == pc[t] <= Len(prog[t])
Op(t) == prog[t][pc[t]]
Set(c, v) == val' = [val EXCEPT ![c] = v] /\ past' = [past EXCEPT ![c] = Append(@, v)]
\* a result: what was returned, and from where on in the past it was being worked out
Return(t, r) == /\ results' = [results EXCEPT ![t] = Append(@, r)] /\ pc' = [pc EXCEPT ![t] = @ + 1]
                /\ seen' = [seen EXCEPT ![t] = <<>>] /\ got' = [got EXCEPT ![t] = <<>>]
Inc(t) == /\ Busy(t) /\ Op(t)[1] = "inc"
          /\ Set(Op(t)[2], val[Op(t)[2]] + 1) /\ Return(t, <<val[Op(t)[2]] + 1>>) /\ UNCHANGED prog
Get(t) == /\ Busy(t) /\ Op(t)[1] = "get" /\ Return(t, <<val[Op(t)[2]]>>) /\ UNCHANGED <<val, past, prog>>
Load(t) == /\ Busy(t) /\ Op(t)[1] = "max" /\ seen[t] = <<>>
           /\ IF Op(t)[3] <= val[Op(t)[2]] THEN Return(t, <<val[Op(t)[2]]>>)
              ELSE seen' = [seen EXCEPT ![t] = <<val[Op(t)[2]]>>] /\ UNCHANGED <<pc, got, results>>
           /\ UNCHANGED <<val, past, prog>>
Swap(t) == /\ Busy(t) /\ Op(t)[1] = "max" /\ seen[t] # <<>> /\ UNCHANGED prog
           /\ IF val[Op(t)[2]] = seen[t][1] THEN Set(Op(t)[2], Op(t)[3]) /\ Return(t, <<Op(t)[3]>>)
              ELSE seen' = [seen EXCEPT ![t] = <<>>] /\ UNCHANGED <<val, past, pc, got, results>>
Read(t) == /\ Busy(t) /\ Op(t)[1] = "snap" /\ UNCHANGED <<val, past, prog>>
           /\ LET g == Append(got[t], val[Len(got[t]) + 1]) IN
              IF Len(g) = NCounters THEN Return(t, g)
              ELSE got' = [got EXCEPT ![t] = g] /\ UNCHANGED <<pc, seen, results>>
Next == \E t \in Threads : Inc(t) \/ Get(t) \/ Load(t) \/ Swap(t) \/ Read(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Explain(seqs, v, final) ==      \* is there an order of the operations on one counter that explains all results?
  LET RECURSIVE E(_, _)
      E(q, x) == IF \A t \in DOMAIN q : q[t] = <<>> THEN final = x
                 ELSE \E t \in DOMAIN q : /\ q[t] # <<>>
                        /\ LET o == Head(q[t])
                               y == IF o.op = "inc" THEN x + 1 ELSE IF o.op = "max" /\ o.arg > x THEN o.arg ELSE x
                           IN  o.res = y /\ E([q EXCEPT ![t] = Tail(@)], y)
  IN E(seqs, v)
RECURSIVE Of(_, _, _, _)
Of(t, c, i, acc) ==
  IF i > Len(results[t]) THEN acc
  ELSE LET o == prog[t][i]
           r == IF o[1] = "snap" THEN results[t][i][c] ELSE results[t][i][1]
       IN  IF o[1] # "snap" /\ o[2] # c THEN Of(t, c, i + 1, acc)
           ELSE Of(t, c, i + 1, Append(acc, [op |-> o[1], arg |-> IF o[1] = "max" THEN o[3] ELSE 0, res |-> r]))
Done == \A t \in Threads : ~Busy(t)
Orderly == Done => \A c \in Cs : Explain([t \in Threads |-> Of(t, c, 1, <<>>)], past[c][1], val[c])
NeverDown == \A c \in Cs : \A i \in 2..Len(past[c]) : past[c][i] > past[c][i - 1]
(* Each increment returns a value of its own.                                *)
IncResults(c) == {<<t, i>> \in {<<t, i>> : t \in Threads, i \in 1..3} : i <= Len(results[t]) /\ prog[t][i] = <<"inc", c>>}
Distinct == \A c \in Cs : Cardinality({results[x[1]][x[2]][1] : x \in IncResults(c)}) = Cardinality(IncResults(c))
Ends == <>Done
MCPrograms == {<<<<"inc", 1>>, <<"inc", 1>>>>, <<<<"max", 1, 2>>, <<"get", 1>>>>, <<<<"max", 1, 4>>>>, <<<<"inc", 1>>, <<"max", 2, 3>>>>,
               <<<<"snap">>, <<"inc", 2>>>>, <<<<"get", 1>>, <<"snap">>>>, <<<<"max", 2, 1>>, <<"snap">>>>}
=============================================================================
