----------------------------- MODULE ConvTrace -----------------------------
EXTENDS Conv, Json, IOUtils
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = 0 /\ cv = CvSt0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ CvEnabled(cv, E(i + 1).c)
     /\ told' = CvAnswer(cv, E(i + 1).c) /\ cv' = CvApply(cv, E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<cv, tid, i, told>>
Run == i > 0 /\ E(i).c.op = "run"
Answers == i > 0 => E(i).r = told
RowsHeld == Run => RowsRight(cv, E(i).s)
NothingElse == Run => RowsElse(cv, E(i).s)
BoundsHeld == Run => BoundsRight(cv, E(i).s)
=============================================================================
