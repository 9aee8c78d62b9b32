----------------------------- MODULE PropsTrace -----------------------------
EXTENDS Props, Json, IOUtils
VARIABLES tid, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<tid, i>>
Answers == i > 0 => Answer(E(i).c, E(i).r)
=============================================================================
