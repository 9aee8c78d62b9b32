----------------------------- MODULE UGraphTrace -----------------------------
EXTENDS UGraph, Json, IOUtils, TLC
VARIABLES tid, i, good
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ good = TRUE /\ ug = USt0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Enabled(ug, E(i + 1).c)
     /\ good' = Allowed(ug, E(i + 1).c, E(i + 1).r)
     /\ ug' = Apply(ug, E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<ug, tid, i, good>>
Answer == good
Range(q) == {q[k] : k \in 1..Len(q)}
Asked == i > 0 => \A j \in Inps : Len(E(i).s.inp[j]) = Cardinality(ug.inp[j]) /\ Range(E(i).s.inp[j]) = ug.inp[j]
=============================================================================
