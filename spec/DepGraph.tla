------------------------------ MODULE DepGraph ------------------------------
(* Dependency graphs: nodes 0..n-1, an edge <<f,t>> says that f depends on t.
   Commands add and remove nodes and edges; the queries order / groupedOrder / reduce are
   specified by the predicates OrderOk / GroupsOk / ReduceOk on their answers.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN          \* bound on the number of nodes
VARIABLES n, edges
gvars == <<n, edges>>

Nodes(m) == 0..(m-1)
Reach1(E, S) == S \cup {e[2] : e \in {x \in E : x[1] \in S}}
RECURSIVE ReachFix(_, _)
ReachFix(E, S) == LET T == Reach1(E, S) IN IF T = S THEN S ELSE ReachFix(E, T)
\* nodes reachable from v by at least one edge
Below(E, v) == ReachFix(E, {e[2] : e \in {x \in E : x[1] = v}})
Acyclic(m, E) == \A v \in Nodes(m) : v \notin Below(E, v)
Mutual(E, u, v) == u = v \/ (u \in Below(E, v) /\ v \in Below(E, u))
Undirected(E) == E \cup {<<e[2], e[1]>> : e \in E}
Component(E, v) == ReachFix(Undirected(E), {v})

(* ---------------------------------------------------------------- actions *)
GInit == n = 0 /\ edges = {}
AddNode == n < MaxN /\ n' = n + 1 /\ edges' = edges
AddEdge(f, t) == f \in Nodes(n) /\ t \in Nodes(n) /\ edges' = edges \cup {<<f, t>>} /\ n' = n
Shift(v, k) == IF v > k THEN v - 1 ELSE v
RemoveNode(k) ==
  /\ k \in Nodes(n)
  /\ n' = n - 1
  /\ edges' = {<<Shift(e[1], k), Shift(e[2], k)>> : e \in {x \in edges : x[1] # k /\ x[2] # k}}
Clear == n' = 0 /\ edges' = {}

(* ------------------------------------------------------- what queries answer *)
Range(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Range(s)) = Len(s)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Before(s, E) == \A e \in E : (e[1] \in Range(s) /\ e[2] \in Range(s)) => Pos(s, e[2]) < Pos(s, e[1])
OrderOk(s) == NoDup(s) /\ Range(s) = Nodes(n) /\ Before(s, edges)
GroupsOk(gs) ==
  /\ \A g \in Range(gs) : NoDup(g) /\ Len(g) > 0 /\ Before(g, edges) /\ \A x \in Range(g) : Range(g) = Component(edges, x)
  /\ UNION {Range(g) : g \in Range(gs)} = Nodes(n)
  /\ \A i, j \in 1..Len(gs) : i # j => Range(gs[i]) \cap Range(gs[j]) = {}
\* r.groups: the groups of mutually dependent nodes, r.edges: the dependencies between groups (0-based group numbers)
ReduceOk(r) ==
  LET gs == r.groups
      Of(v) == CHOOSE i \in 1..Len(gs) : v \in Range(gs[i])
  IN /\ UNION {Range(g) : g \in Range(gs)} = Nodes(n)
     /\ \A i, j \in 1..Len(gs) : i # j => Range(gs[i]) \cap Range(gs[j]) = {}
     /\ \A g \in Range(gs) : NoDup(g) /\ Len(g) > 0 /\ \A x \in Range(g) : Range(g) = {y \in Nodes(n) : Mutual(edges, x, y)}
     /\ r.size = Len(gs)
     /\ {<<e[1], e[2]>> : e \in Range(r.edges)} = {<<Of(e[1]) - 1, Of(e[2]) - 1>> : e \in {x \in edges : ~Mutual(edges, x[1], x[2])}}

(* ------------------------------------------- properties of the specification *)
TypeOK == n \in 0..MaxN /\ edges \subseteq (Nodes(n) \X Nodes(n))
\* an order exists exactly when the graph is acyclic (so that refusing exactly the cyclic graphs is possible)
Perms(S) == {s \in [1..Cardinality(S) -> S] : Cardinality(Range(s)) = Cardinality(S)}
OrderExistsIffAcyclic == Acyclic(n, edges) <=> (\E s \in Perms(Nodes(n)) : OrderOk(s))
\* mutual dependency is an equivalence and the graph between its classes is acyclic
CondensationAcyclic ==
  /\ \A u, v, w \in Nodes(n) : Mutual(edges, u, v) /\ Mutual(edges, v, w) => Mutual(edges, u, w)
  /\ \A u, v \in Nodes(n) : (v \in Below(edges, u) /\ ~Mutual(edges, u, v)) => u \notin Below(edges, v)
=============================================================================
