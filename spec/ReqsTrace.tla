------------------------------ MODULE ReqsTrace ------------------------------
EXTENDS Reqs, Json, IOUtils, TLC
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
B(x) == IF x THEN 1 ELSE 0
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = {} /\ rq = RSt0
Ans(s, c) == IF c.op = "build" /\ Refused(c.args) THEN [exc |-> 1] ELSE [log |-> Notified(s, c)]
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Enabled(rq, E(i + 1).c)
     /\ told' = {Ans(rq, E(i + 1).c)} \cup (IF Unchanged(rq, E(i + 1).c) THEN {[log |-> <<>>]} ELSE {})
     /\ rq' = Apply(rq, E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<rq, tid, i, told>>
Answer == i > 0 => E(i).r \in told
Values == i > 0 => E(i).s.o = [o \in Objs |-> IF Exists(rq, o) THEN rq.o[o].r ELSE <<>>]
=============================================================================
