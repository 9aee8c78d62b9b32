----------------------------- MODULE VarVecTrace -----------------------------
(* Recorded executions on real vectors of variables, checked against VarVec. *)
EXTENDS VarVec, Json, IOUtils, TLC
VARIABLES tid, i, told
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
Ok == [ok |-> 1]
Is(b) == IF b THEN Ok ELSE [exc |-> 1]
Do(c) ==
  CASE c.op = "add" -> Add(c.v, c.p) /\ told' = IF Clash(vec[c.v], c.p) THEN [exc |-> 1] ELSE [ok |-> IF Has(vec[c.v], c.p) THEN 0 ELSE 1]
    [] c.op = "addl" -> AddList(c.v, c.x) /\ told' = Is(~ClashAll(vec[c.v], c.x))
    [] c.op = "addv" -> AddVec(c.v, c.w) /\ told' = Is(~ClashAll(vec[c.v], vec[c.w]))
    [] c.op = "addi" -> AddIndex(c.v, c.p) /\ told' = IF IndexClash(vec[c.v], c.p) THEN [exc |-> 1] ELSE [ok |-> IndexTold(vec[c.v], c.p, c.w)]
    [] c.op = "rm" -> Rem(c.v, c.p) /\ told' = [ok |-> IF HasEq(vec[c.v], c.p) THEN 1 ELSE 0]
    [] c.op = "rmi" -> RemIdx(c.v, c.w) /\ told' = Is(c.w >= 0 /\ c.w < Len(vec[c.v]))
    [] c.op = "clear" -> Clear(c.v) /\ told' = Ok
    [] c.op \in {"copy", "assign"} -> Copy(c.v, c.w) /\ told' = Ok
    [] c.op \in {"move", "movec"} -> Move(c.v, c.w) /\ told' = Ok
    [] c.op = "dot" -> Dots(c.v, c.w) /\ told' = Ok
    [] c.op = "set" -> SetAll(c.v, c.x) /\ told' = Ok
    [] c.op = "zero" -> ZeroAll(c.v) /\ told' = Ok
    [] c.op = "setp" -> SetOne(c.p, c.x) /\ told' = Ok
    [] c.op = "nop" -> Nop /\ told' = Ok
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = Ok /\ VInit
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Do(E(i + 1).c)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<vvars, tid, i, told>>
O == E(i).s
B(x) == IF x THEN 1 ELSE 0
Answer == i > 0 => E(i).r = told
Members == i > 0 => \A v \in 1..3 : O[v].m = vec[v] /\ O[v].n = Len(vec[v]) /\ O[v].size = SumSz(vec[v])
Values == i > 0 => \A v \in 1..3 : O[v].val = Concat(vec[v])
Queries == i > 0 => \A v \in 1..3 : \A p \in 1..P :
   /\ O[v].has[p] = B(Has(vec[v], p))
   /\ O[v].meets[p] = B(\E j \in 1..Len(vec[v]) : Intersects(vec[v][j], p))
   /\ O[v].idx[p] = IndexOf(vec[v], p)
Mappings == i > 0 => \A v \in 1..3 :
   /\ "map" \in DOMAIN O[v] => \A p \in 1..P : O[v].map[p] = Mapping(vec[v], p)
   /\ "map2" \in DOMAIN O[v] => \A p \in 1..P : O[v].map2[p] = Mapping(vec[v], p)
=============================================================================
