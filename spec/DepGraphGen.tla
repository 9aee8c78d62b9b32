---------------------------- MODULE DepGraphGen ----------------------------
(* Command sequences for the dependency graph: exhaustive (every transition of the small model,
   printed by PrintTr) and random (Depth commands, printed by Done).                            *)
EXTENDS DepGraph, Json
CONSTANTS Depth
VARIABLES cmd, hist, fin
vars == <<gvars, cmd, hist, fin>>
Step ==
  \/ AddNode /\ cmd' = [op |-> "addNode"]
  \/ \E f, t \in Nodes(n) : AddEdge(f, t) /\ cmd' = [op |-> "addEdge", f |-> f, t |-> t]
  \/ \E k \in Nodes(n) : RemoveNode(k) /\ cmd' = [op |-> "removeNode", k |-> k]
  \/ n = MaxN /\ Clear /\ cmd' = [op |-> "clear"]
(* exhaustive *)
InitG == GInit /\ cmd = 0 /\ hist = <<>> /\ fin = FALSE /\ PrintT("IN " \o ToJson([n |-> n, e |-> edges]))
NextG == Step /\ UNCHANGED <<hist, fin>>
PrintTr == PrintT("TR " \o ToJson(<<[n |-> n, e |-> edges], cmd', [n |-> n', e |-> edges']>>))
View == gvars
(* random: weighted so that graphs get dense enough *)
\* depends on the state: TLC would evaluate a constant expression once only
Pick(S) == RandomElement({x \in S : ~fin})
RAddEdge ==
  /\ n > 0
  /\ LET f == Pick(Nodes(n))
         t == Pick(Nodes(n))
     IN (f # t \/ Pick(1..4) = 1) /\ AddEdge(f, t) /\ cmd' = [op |-> "addEdge", f |-> f, t |-> t]
RDown ==
  /\ n > 1
  /\ LET a == Pick(Nodes(n))
         b == Pick(Nodes(n))
         f == IF a > b THEN a ELSE b
         t == IF a > b THEN b ELSE a
     IN f # t /\ AddEdge(f, t) /\ cmd' = [op |-> "addEdge", f |-> f, t |-> t]
RRemove == n > MaxN \div 2 /\ \E k \in {Pick(Nodes(n))} : RemoveNode(k) /\ cmd' = [op |-> "removeNode", k |-> k]
RStep == \/ AddNode /\ cmd' = [op |-> "addNode"]
         \/ RDown
         \/ LET r == Pick(1..10) IN IF r = 1 THEN RAddEdge ELSE IF r < 4 THEN RRemove ELSE RDown
         \/ Pick(1..60) = 1 /\ Clear /\ cmd' = [op |-> "clear"]
NextR ==
  \/ Len(hist) < Depth /\ RStep /\ hist' = Append(hist, cmd') /\ fin' = fin
  \/ Len(hist) = Depth /\ ~fin /\ fin' = TRUE /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<gvars, cmd, hist>>
InitR == GInit /\ cmd = 0 /\ hist = <<>> /\ fin = FALSE
=============================================================================
