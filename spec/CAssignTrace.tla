---------------------------- MODULE CAssignTrace ----------------------------
EXTENDS CAssign, Json, IOUtils, TLC
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = 0 /\ ca = CSt0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ CEnabled(ca, E(i + 1).c)
     /\ told' = CAnswer(ca, E(i + 1).c) /\ ca' = CApply(ca, E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<ca, tid, i, told>>
Answers == i > 0 => E(i).r = told
Targets == i > 0 => E(i).s.t = ca.t
NothingElse == i > 0 => E(i).s.o = 1
=============================================================================
