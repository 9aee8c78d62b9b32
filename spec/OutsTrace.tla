------------------------------ MODULE OutsTrace ------------------------------
EXTENDS Outs, Json, IOUtils, TLC
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
B(x) == IF x THEN 1 ELSE 0
Range(q) == {q[k] : k \in 1..Len(q)}
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = 0 /\ ou = OSt0
Seen(s) == [x \in Objs |-> IF Exists(s, x) THEN [p \in Outs(s, x) |-> B(On(s, x, p))] ELSE <<>>]
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Enabled(ou, E(i + 1).c)
     /\ told' = Answer(ou, E(i + 1).c)
     \* what was changed before a refusal is told by the observation
     /\ LET R == Results(ou, E(i + 1).c)
            M == {t \in R : Seen(t) = E(i + 1).s.on /\ \A d \in 1..NCon, x \in Objs : Range(E(i + 1).s.in[d][x]) = t.in[d][x]}
        IN ou' \in (IF M = {} THEN R ELSE M)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<ou, tid, i, told>>
Answers == i > 0 => E(i).r = told
EnabledOutputs == i > 0 => E(i).s.on = Seen(ou)
Inputs == i > 0 => \A d \in 1..NCon, x \in Objs : Range(E(i).s.in[d][x]) = ou.in[d][x]
Locks == i > 0 => \A x \in Objs : E(i).s.lock[x] = ou.o[x].lock
=============================================================================
