---------------------------- MODULE TaskDynTrace ----------------------------
EXTENDS TaskDyn, Json, IOUtils
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = 0 /\ tk = TS0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ TdEnabled(tk, E(i + 1).c)
     /\ told' = TdAnswer(tk, E(i + 1).c) /\ tk' = TdApply(tk, E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<tk, tid, i, told>>
Answers == i > 0 => E(i).r = told
\* observed values are in thousandths
Close(o, v) == Abs(o * v[2] - 1000 * v[1]) <= 2 * v[2]
Same(o, v) == Len(o) = Len(v) /\ \A r \in 1..Len(v) : Close(o[r], v[r])
Seen == i > 0 /\ E(i).c.op = "run"
Obs == E(i).s
Dynamics == Seen /\ ~Hidden(tk.c) => \A sd \in Req(tk.c) : Same(Obs.td[sd], tk.out.td[sd])
Bounds == Seen => \A sd \in Req(tk.c) : Same(Obs.bnd[sd], tk.out.bnd[sd])
\* all outputs are kept up to date when asked for, the jacobians are given per variable, by the right derivatives
Jacobian == Seen /\ tk.c.full = 1 => Obs.vars = 1 /\ Obs.jac = tk.out.jac
Value == Seen /\ tk.c.full = 1 => Obs.val = tk.out.val
Shape == i > 0 /\ tk.on = 1 => Obs.ty = tk.c.ty /\ Obs.rhs = "G"
=============================================================================
