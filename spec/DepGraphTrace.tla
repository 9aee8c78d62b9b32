--------------------------- MODULE DepGraphTrace ---------------------------
(* Recorded executions of the real dependency graph, checked against DepGraph. *)
EXTENDS DepGraph, Json, IOUtils
VARIABLES tid, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev(k) == Traces[tid].e[k]
Do(c) ==
  CASE c.op = "addNode" -> AddNode
    [] c.op = "addEdge" -> AddEdge(c.f, c.t)
    [] c.op = "removeNode" -> RemoveNode(c.k)
    [] c.op = "clear" -> Clear
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ GInit
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid /\ Do(Ev(i + 1).c)
     /\ (Ev(i + 1).c.op = "addNode" => Ev(i + 1).r = n)
     /\ (Ev(i + 1).c.op = "addEdge" => Ev(i + 1).r = (<<Ev(i + 1).c.f, Ev(i + 1).c.t>> \notin edges))
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<gvars, tid, i>>
S == Ev(i).s
IsExc(x) == "exc" \in DOMAIN x
SizeEdges == i > 0 => S.size = n /\ {<<e[1], e[2]>> : e \in Range(S.edges)} = edges
Order == i > 0 => IF Acyclic(n, edges) THEN S.order.ok = 1 /\ OrderOk(S.order.v) ELSE S.order.ok = 0
Grouped == i > 0 => IF Acyclic(n, edges) THEN S.grouped.ok = 1 /\ GroupsOk(S.grouped.v) ELSE S.grouped.ok = 0
Reduced == i > 0 => ReduceOk(S.reduce)
=============================================================================
