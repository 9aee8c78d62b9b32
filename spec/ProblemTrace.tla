---------------------------- MODULE ProblemTrace ----------------------------
(* Recorded executions of real control problems, checked against Problem. *)
EXTENDS Problem, Json, IOUtils, TLC
VARIABLES tid, i, told  \* told: what the command had to answer
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
Exc(r) == "exc" \in DOMAIN r
Gr(c) == Rng(c.x)
Do(c, r) ==
  CASE c.op = "add" -> Add(c.k, c.t) /\ told' = [ok |-> 1]
    [] c.op \in {"rm", "rmlast"} -> Remove(c.k, c.t) /\ told' = IF RemoveExc(c.k, c.t) THEN [exc |-> 1] ELSE [ok |-> 1]
    [] c.op \in {"w", "aw"} -> Weight(c.op, c.t) /\ told' = [ok |-> 1]
    [] c.op = "sadd" -> AddSub(c.k, Gr(c)) /\ told' = [ok |-> 1]
    [] c.op = "srm" -> RemSub(c.k, Gr(c)) /\ told' = [ok |-> 1]
    [] c.op = "solve" -> Solve(c.k, c.t) /\ told' = IF c.t \in known[c.k] THEN [ev |-> q[c.k][c.t], created |-> 0] ELSE [ev |-> <<>>, created |-> 1]
    [] c.op = "solvex" -> SolveFail(c.k, c.t) /\ told' = [exc |-> 1]
    [] c.op = "addbad" -> Nop /\ told' = [exc |-> 1]
    [] c.op = "update" -> Nop /\ told' = [runs |-> [t \in Ts |-> IF c.k > 0 /\ Has(c.k, t) THEN 1 ELSE 0]]
    [] c.op = "reset" -> Reset(c.k) /\ told' = [ok |-> 1]
    [] c.op = "copy" -> CopyFrom(c.k, c.t) /\ told' = [ok |-> 1]
    [] c.op = "scheme" -> NewScheme(c.t) /\ told' = [ok |-> 1]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = [ok |-> 1] /\ PInit
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Do(E(i + 1).c, E(i + 1).r)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<pvars, tid, i, told>>
O == E(i).s
Answer == i > 0 => E(i).r = told
Tasks == i > 0 => \A k \in Ks : O[k + 1].tasks = in[k] /\ O[k + 1].size = Len(in[k])
Constraints == i > 0 => \A k \in 1..K : /\ Len(O[k + 1].cstr) = Len(in[k])
                                         /\ Rng(O[k + 1].cstr) = Rng(in[k])
                                         /\ Rng(O[k + 1].has) = Rng(in[k])
Substs == i > 0 => \A k \in 1..K : {Rng(O[k + 1].subs[j]) : j \in 1..Len(O[k + 1].subs)} = Rng(subs[k]) /\ Len(O[k + 1].subs) = Len(subs[k])
=============================================================================
