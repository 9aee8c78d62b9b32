------------------------------ MODULE VarsTrace ------------------------------
(* Recorded executions on real variables, checked against Vars. *)
EXTENDS Vars, Json, IOUtils, TLC
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
Is(b) == IF b THEN [ok |-> 1] ELSE [exc |-> 1]
Do(c) ==
  CASE c.op = "nop" -> UNCHANGED vvars /\ told' = [ok |-> 1]
    [] c.op = "new" -> New(c.s, c.x) /\ told' = [ok |-> 1]
    [] c.op = "dot" -> Dot(c.s, c.h, c.n) /\ told' = [ok |-> 1]
    [] c.op = "prim" -> Prim(c.s, c.h, c.n) /\ told' = Is(PrimOk(c.h, c.n))
    [] c.op = "base" -> BasePrim(c.s, c.h) /\ told' = [ok |-> 1]
    [] c.op = "super" -> GetSuper(c.s, c.h) /\ told' = [ok |-> 1]
    [] c.op = "self" -> GetSelf(c.s, c.h) /\ told' = [ok |-> 1]
    [] c.op = "sub" -> Sub(c.s, c.h, c.n, c.m) /\ told' = Is(SubOk(c.h, c.m))
    [] c.op = "dup" -> Dup(c.s, c.h) /\ told' = [ok |-> 1]
    [] c.op = "set" -> Set(c.h, c.x) /\ told' = Is(SetOk(c.h, c.x))
    [] c.op = "seg" -> SetSeg(c.h, c.n, c.x) /\ told' = Is(SegOk(c.h, c.n, c.x))
    [] c.op = "zero" -> Zero(c.h) /\ told' = [ok |-> 1]
    [] c.op = "release" -> Release(c.s) /\ told' = [ok |-> 1]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = [ok |-> 1] /\ VInit
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Do(E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<vvars, tid, i, told>>
O == E(i).s
SlotSeq == LET L == {s \in Slots : Live(s)} IN [k \in 1..Cardinality(L) |-> CHOOSE s \in L : Cardinality({t \in L : t < s}) = k - 1]
SpaceSizes(sp) == <<Sum(sp, 1), Sum(sp, 2), Sum(sp, 3), \A j \in 1..Len(sp) : sp[j] \in {"E1", "E2"}>>
Answer == i > 0 => E(i).r = told
Alive == i > 0 => O.sl = SlotSeq
Describe == i > 0 => \A k \in 1..Len(SlotSeq) :
  LET h == hd[SlotSeq[k]]  o == O.vs[k] IN
  /\ o.d = h[2]
  /\ o.base = (h[2] = 0)
  /\ o.size = Len_(h)
  /\ o.sub = IsSub(h) /\ o.sup = ~IsSub(h)
  /\ o.rg = <<Start(h), Len_(h)>>
  /\ o.trg = <<Size(Before(h), 1), Size(Atoms(h), 1)>>
  /\ o.sp = SpaceSizes(Atoms(h)) /\ o.sh = SpaceSizes(Before(h))
  /\ o.eu = Euclidean(h)
Values == i > 0 => \A k \in 1..Len(SlotSeq) : O.vs[k].val = Value(hd[SlotSeq[k]])
Relations == i > 0 => \A k, l \in 1..Len(SlotSeq) : O.rel[k][l] = Rel(hd[SlotSeq[k]], hd[SlotSeq[l]])
=============================================================================
