---------------------------- MODULE AffineTrace ----------------------------
EXTENDS Affine, Json, IOUtils
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = <<>> /\ af = AS0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ AfEnabled(af, E(i + 1).c)
     /\ af' = AfApply(af, E(i + 1).c) /\ told' = af'.d
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<af, tid, i, told>>
Got == E(i).r
Is == i > 0
Run == Is /\ E(i).c.op = "run"
\* an expression is refused only when a right-hand side does not have its size
Refusals == Is /\ ~Run => IF E(i).c.op = "make" /\ told = <<>> THEN Got = [exc |-> 1] ELSE Got = [ok |-> 1]
AType == Run => Got.ty = told[1].ty /\ Got.m = told[1].d.m
AValue == Run => Got.val = Value(af)
Constant == Run => Got.b = told[1].d.b
\* each component once, with its column; the other ones have no influence
Columns == Run => /\ \A k \in 1..Len(Got.J) : Got.J[k][2] = told[1].d.A[Got.J[k][1]]
                  /\ \A k, j \in 1..Len(Got.J) : k # j => Got.J[k][1] # Got.J[j][1]
                  /\ \A c \in 1..NC : (\A k \in 1..Len(Got.J) : Got.J[k][1] # c) => IsZero(<<told[1].d.A[c]>>)
                  /\ \A p \in told[1].u : \A t \in 1..Width(p) : \E k \in 1..Len(Got.J) : Got.J[k][1] = Comps[p][t]
\* the jacobian of a part, and what is recorded of it
Parts == Run => /\ {Got.P[k].p : k \in 1..Len(Got.P)} = told[1].u
                /\ \A k \in 1..Len(Got.P) : LET g == Got.P[k] IN g.M = [r \in 1..told[1].d.m |-> [c \in 1..Width(g.p) |-> told[1].d.A[Comps[g.p][c]][r]]]
Recorded == Run => (\A k \in 1..Len(Got.P) : TrueOf(Got.P[k].M, Got.P[k].w)) /\ (\A k \in 1..Len(Got.Q) : TrueOf(Got.Q[k].M, Got.Q[k].w))
                   /\ TrueOf([r \in 1..told[1].d.m |-> <<told[1].d.b[r]>>], Got.bw)
\* the constraint of the task
Bounds == Run => /\ Got.pl = told[1].l /\ Got.pu = told[1].h /\ Got.pe = told[1].e
                 /\ Got.l = Shift(told[1].l, told[1].d.b) /\ Got.u = Shift(told[1].h, told[1].d.b) /\ Got.e = Shift(told[1].e, told[1].d.b)
                 /\ \A k \in 1..Len(Got.C) : Got.C[k][2] = told[1].d.A[Got.C[k][1]]
                 /\ told[1].ty > 0 => {Got.C[k][1] : k \in 1..Len(Got.C)} = {Got.J[k][1] : k \in 1..Len(Got.J)}
Values == Is => E(i).s = af.v
=============================================================================
