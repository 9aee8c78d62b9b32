------------------------------- MODULE UGraph -------------------------------
(* Update graphs. Nodes 1..NNode have NU updates and NO outputs; source NNode + 1 has NO outputs and no update.
   Update u of node n depends on updates of n and on outputs of sources; an output of a node depends on updates
   of the node, or forwards an output of a source, or depends on nothing. Inputs objects 1..NInp ask for outputs
   of sources; a node is also the inputs object NInp + n, asking for what it depends on. A graph is told inputs
   objects (what they ask for at that time), and from its last update knows which calls it has to make.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NNode, NU, NO, NInp, NGraph
VARIABLE ug
Nodes == 1..NNode
Sources == 1..(NNode + 1)
Us == 1..NU
Os == 1..NO
Inps == 1..(NInp + NNode)
Graphs == 1..NGraph
G0 == [req |-> {}, st |-> "ok", plan |-> {}]
USt0 == [int |-> [n \in Nodes |-> {}], in |-> [n \in Nodes |-> {}], out |-> [n \in Nodes |-> [o \in Os |-> {}]],
         dir |-> [n \in Nodes |-> [o \in Os |-> <<>>]], inp |-> [i \in Inps |-> {}], g |-> [g \in Graphs |-> G0]]
---------------------------------------------------------------------------
(* what an output <<m, p>> is: an end of a chain of forwarded outputs, or a loop of them *)
Forwards(s, x) == x[1] <= NNode /\ s.out[x[1]][x[2]] = {} /\ s.dir[x[1]][x[2]] # <<>>
RECURSIVE EndOf(_, _, _)
EndOf(s, x, n) == IF ~Forwards(s, x) THEN x ELSE IF n = 0 THEN <<>> ELSE EndOf(s, s.dir[x[1]][x[2]], n - 1)
Looping(s, x) == EndOf(s, x, NNode * NO) = <<>>
CallsOf(s, x) ==
  LET e == EndOf(s, x, NNode * NO)
  IN IF e = <<>> \/ e[1] > NNode THEN {} ELSE {<<e[1], u>> : u \in s.out[e[1]][e[2]]}
OutsOf(s, c) == {<<d[2], d[3]>> : d \in {d \in s.in[c[1]] : d[1] = c[2]}}
DepsOf(s, c) == {<<c[1], d[2]>> : d \in {d \in s.int[c[1]] : d[1] = c[2]}} \cup UNION {CallsOf(s, x) : x \in OutsOf(s, c)}
RECURSIVE Reach(_, _, _)
Reach(s, done, new) == IF new = {} THEN done ELSE Reach(s, done \cup new, UNION {DepsOf(s, c) : c \in new} \ (done \cup new))
Needed(s, req) == Reach(s, {}, UNION {CallsOf(s, x) : x \in req})
\* the calls that are left when those whose dependencies are all gone are taken away repeatedly
RECURSIVE Core(_, _)
Core(s, C) == LET R == {c \in C : DepsOf(s, c) \cap C # {}} IN IF R = C THEN C ELSE Core(s, R)
Cyclic(s, req) == Core(s, Needed(s, req)) # {}
Loops(s, req) == \E x \in req \cup UNION {OutsOf(s, c) : c \in Needed(s, req)} : Looping(s, x)
---------------------------------------------------------------------------
Quiet(s) == \A g \in Graphs : s.g[g] = G0
Enabled(s, c) ==
  CASE c.op \in {"int", "in", "out", "dir"} -> Quiet(s)
    [] c.op \in {"add", "upd"} -> s.g[c.g].st # "lost"
    [] c.op = "exe" -> s.g[c.g].st \in {"ok", "refused"}
    [] OTHER -> TRUE
\* a requested output is refused when it is declared twice, or in two ways
Refused(s, c) ==
  CASE c.op = "out" -> s.dir[c.n][c.o] # <<>>
    [] c.op = "dir" -> s.dir[c.n][c.o] # <<>> \/ s.out[c.n][c.o] # {}
    [] c.op = "rem" -> {x \in s.inp[c.i] : x[1] = c.n} = {}
    [] c.op = "remo" -> \E k \in 1..Len(c.os) : <<c.n, c.os[k]>> \notin s.inp[c.i]
    [] c.op = "upd" -> Cyclic(s, s.g[c.g].req)
    [] c.op = "gen" -> Cyclic(s, {c.rs[k] : k \in 1..Len(c.rs)}) \/ Loops(s, {c.rs[k] : k \in 1..Len(c.rs)})
    [] c.op = "add" -> Loops(s, s.inp[c.i])
    [] OTHER -> FALSE
Xs(n, os) == {<<n, os[k]>> : k \in 1..Len(os)}
Apply(s, c) ==
  IF Refused(s, c) THEN (IF c.op = "upd" THEN [s EXCEPT !.g[c.g].st = "refused"]
                         ELSE IF c.op = "add" THEN [s EXCEPT !.g[c.g].st = "lost"] ELSE s)
  ELSE
  CASE c.op = "int" -> [s EXCEPT !.int[c.n] = @ \cup {<<c.u, c.v>>}]
    [] c.op = "in" -> [s EXCEPT !.in[c.n] = @ \cup {<<c.u, c.m, c.os[k]>> : k \in 1..Len(c.os)}, !.inp[NInp + c.n] = @ \cup Xs(c.m, c.os)]
    [] c.op = "out" -> [s EXCEPT !.out[c.n][c.o] = @ \cup {c.u}]
    [] c.op = "dir" -> [s EXCEPT !.dir[c.n][c.o] = <<c.m, c.p>>, !.inp[NInp + c.n] = @ \cup {<<c.m, c.p>>}]
    [] c.op = "inp" -> [s EXCEPT !.inp[c.i] = @ \cup Xs(c.n, c.os)]
    [] c.op = "rem" -> [s EXCEPT !.inp[c.i] = {x \in @ : x[1] # c.n}]
    [] c.op = "remo" -> [s EXCEPT !.inp[c.i] = @ \ Xs(c.n, c.os)]
    [] c.op = "add" -> [s EXCEPT !.g[c.g] = [@ EXCEPT !.req = @ \cup s.inp[c.i], !.st = "told"]]
    [] c.op = "upd" -> [s EXCEPT !.g[c.g] = [@ EXCEPT !.plan = Needed(s, s.g[c.g].req), !.st = "ok"]]
    [] c.op = "clr" -> [s EXCEPT !.g[c.g] = G0]
    [] OTHER -> s
\* log is an execution of exactly these calls
Runs(s, C, log) ==
  /\ Len(log) = Cardinality(C) /\ {log[k] : k \in 1..Len(log)} = C
  /\ \A a, b \in 1..Len(log) : log[b] \in DepsOf(s, log[a]) => b < a
Allowed(s, c, r) ==
  IF Refused(s, c) THEN r = [exc |-> 1]
  ELSE IF c.op = "exe" THEN "log" \in DOMAIN r /\ (Runs(s, s.g[c.g].plan, r.log) \/ (s.g[c.g].st = "refused" /\ r.log = <<>>))
  ELSE IF c.op = "gen" THEN "log" \in DOMAIN r /\ Runs(s, Needed(s, {c.rs[k] : k \in 1..Len(c.rs)}), r.log)
  ELSE r = [ok |-> 1]
(* checked on the model *)
\* what is needed is the least set that contains what is requested and is closed
Least == \A g \in Graphs : LET N == Needed(ug, ug.g[g].req) IN
           /\ UNION {CallsOf(ug, x) : x \in ug.g[g].req} \subseteq N
           /\ \A c \in N : DepsOf(ug, c) \subseteq N
           /\ \A c \in N : (\A x \in ug.g[g].req : c \notin CallsOf(ug, x)) => \E d \in N : c \in DepsOf(ug, d)
\* an order exists exactly when the graph is not refused
Perms(C) == {f \in [1..Cardinality(C) -> C] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]}
Orderable == \A g \in Graphs : LET N == Needed(ug, ug.g[g].req) IN
               Cyclic(ug, ug.g[g].req) <=> ~\E f \in Perms(N) : Runs(ug, N, f)
PlanIsNeeded == \A g \in Graphs : ug.g[g].st = "ok" => ug.g[g].plan = Needed(ug, ug.g[g].req) /\ ~Cyclic(ug, ug.g[g].req)
=============================================================================
