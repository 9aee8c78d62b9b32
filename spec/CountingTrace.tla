---------------------------- MODULE CountingTrace ----------------------------
(* Recorded executions of VariableCountingVector (joined and split) and RangeCounting. *)
EXTENDS Counting, Json, IOUtils, TLC
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
W(c) == <<c.lo, c.hi>>
B(x) == IF x THEN 1 ELSE 0
(* answers: of the joined structure, of the range counting; the split one is told to have changed if it did *)
Do(c) ==
  CASE c.op = "add" -> Add(c.k, W(c)) /\ told' = [ch |-> B(W(c)[1] < W(c)[2] /\ AddChanges(c.k, W(c)))]
    [] c.op = "rm" -> Remove(c.k, W(c)) /\ told' = IF RemOk(c.k, W(c)) THEN [ch |-> B(RemChanges(c.k, W(c)))] ELSE [exc |-> 1]
    [] c.op = "rmv" -> RemoveBoth(c.k, W(c), c.k2, <<c.lo2, c.hi2>>) /\ told' = IF RemBothOk(c.k, W(c), c.k2, <<c.lo2, c.hi2>>) THEN [ok |-> 1] ELSE [exc |-> 1]
    [] c.op = "iter" -> Iter(c.ws) /\ told' = [ok |-> 1]
    [] c.op = "clear" -> Clear /\ told' = [ok |-> 1]
    [] c.op = "drop" -> Drop(c.k) /\ told' = [ok |-> 1]
    [] c.op = "query" -> Query /\ told' = [ok |-> 1]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = [ok |-> 1] /\ CInit
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Do(E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<cvars, tid, i, told>>
O == E(i).s
(* a recorded part <<start, size>> of a key, as a window of atoms: <<0, 0>> if it is not one *)
AtomAt(k, s) == IF \E p \in 1..(N(k) + 1) : Sum(k, p - 1) = s THEN CHOOSE p \in 1..(N(k) + 1) : Sum(k, p - 1) = s ELSE 0
ToW(k, g) == <<AtomAt(k, g[1]), AtomAt(k, g[1] + g[2])>>
RECURSIVE Of(_, _)
Of(k, l) == IF l = <<>> THEN <<>> ELSE (IF Head(l)[1] = k THEN <<ToW(k, <<Head(l)[2], Head(l)[3]>>)>> ELSE <<>>) \o Of(k, Tail(l))
RECURSIVE FlagsOf(_, _, _)
FlagsOf(k, l, f) == IF l = <<>> THEN <<>> ELSE (IF Head(l)[1] = k THEN <<Head(f)>> ELSE <<>>) \o FlagsOf(k, Tail(l), Tail(f))
Grouped(l) == \A a, b \in 1..Len(l) : a < b /\ l[a][1] = l[b][1] => \A c \in a..b : l[c][1] = l[a][1]
Known(l) == \A j \in 1..Len(l) : l[j][1] \in Keys
Answer == i > 0 => E(i).r = told
Joined == i > 0 /\ "joined" \in DOMAIN O => Known(O.joined) /\ Grouped(O.joined) /\ \A k \in Keys :
            JoinedOk(k, Of(k, O.joined)) /\ SimpleOk(k, Of(k, O.joined), FlagsOf(k, O.joined, O.simple))
Split == i > 0 /\ "split" \in DOMAIN O => Known(O.split) /\ Grouped(O.split) /\ \A k \in Keys : SplitOk(k, Of(k, O.split))
AsW(l) == [j \in 1..Len(l) |-> <<l[j][1], l[j][1] + l[j][2]>>]
Ranges == i > 0 => \A k \in Keys :
            /\ "rj" \in DOMAIN O => JoinedOk(k, AsW(O.rj[k]))
            /\ "rs" \in DOMAIN O => SplitOk(k, AsW(O.rs[k]))
(* the iteration yields, for each variable in turn, the parts of the partition it is made of *)
RECURSIVE Inside(_, _), Parts(_)
Inside(l, w) == IF l = <<>> THEN <<>> ELSE (IF Head(l)[1] = w[1] /\ LET x == ToW(w[1], <<Head(l)[2], Head(l)[3]>>) IN w[2] <= x[1] /\ x[2] <= w[3] THEN <<Head(l)>> ELSE <<>>) \o Inside(Tail(l), w)
Parts(ws) == IF ws = <<>> THEN <<>> ELSE Inside(O.split, Head(ws)) \o Parts(Tail(ws))
Iterated == i > 0 /\ E(i).c.op = "iter" => O.it = Parts(E(i).c.ws)
Misc == i > 0 =>
  /\ O.disj = \A k \in Keys : MaxCount(k) <= 1
  /\ \A k \in Keys : O.max[k] = MaxCount(k) /\ O.empty[k] = Empty(k)
  \* the split structure reports different parts only after telling that it changed
  /\ O.quiet
=============================================================================
