---------------------------- MODULE LinFunTrace ----------------------------
EXTENDS LinFun, Json, IOUtils
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = 0 /\ lf = FS0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ LfEnabled(lf, E(i + 1).c)
     /\ told' = LfAnswer(lf, E(i + 1).c) /\ lf' = LfApply(lf, E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<lf, tid, i, told>>
Got == E(i).r
Is == i > 0
Run == Is /\ E(i).c.op = "run"
Answers == Is /\ ~Run => Got = told
Variables == Run => Rng(Got.vs) = told.vs /\ Len(Got.vs) = Cardinality(told.vs) /\ Got.sz = told.sz
FValue == Run => told.val = <<>> \/ Got.val = told.val
FVelocity == Run => told.vel = <<>> \/ Got.vel = told.vel
Constant == Run => told.b = <<>> \/ Got.b = told.b
\* the jacobian of each variable, given with the variables
Jacobians == Run /\ told.J # <<>> => LET g == lf.f[E(i).c.f] IN \A t \in 1..Len(Got.vs) : \E u \in 1..Len(g.vs) : g.vs[u] = Got.vs[t] /\ Got.J[t] = g.A[u]
Drift == Run => Got.zero = 1
\* nothing else than the assigned variables changes
Values == Is => E(i).s = lf.v
=============================================================================
