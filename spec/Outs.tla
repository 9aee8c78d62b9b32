-------------------------------- MODULE Outs --------------------------------
(* Enabling of outputs. Classes of nodes, each with its outputs 1..N, those it disables statically, and the layers
   of selection it has: a layer lets the outputs 1..limit be enabled or disabled. An object has the outputs it has
   disabled, a lock, and (classes with a custom criterion) the outputs the criterion rejects.
   1 A: three outputs, no selection            2 B: A with two more, disables 2
   3 S: selection on B, starts without 2, 4    4 U: S with two more, and selection; starts without 7
   5 V: U without static disabling             6 W: U disabling 1 and 6 instead of 2
   7 C: selection on a class derived from A with a criterion      8 D: S with a criterion on top
   9 E: U with nothing more                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NObj, NCon
VARIABLE ou
Objs == 1..NObj
Classes == 1..9
N(k) == <<3, 5, 5, 7, 7, 7, 3, 5, 7>>[k]
Static(k) == <<{}, {2}, {2}, {2}, {}, {1, 6}, {}, {2}, {2}>>[k]
Layers(k) == <<<<>>, <<>>, <<5>>, <<5, 7>>, <<5, 7>>, <<5, 7>>, <<3>>, <<5>>, <<5, 7>>>>[k]
Starts(k) == <<{}, {}, {2, 4}, {2, 4, 7}, {2, 4, 7}, {2, 4, 7}, {}, {2, 4}, {2, 4, 7}>>[k]
Custom(k) == k \in {7, 8}
NoObj == [k |-> 0, off |-> {}, lock |-> 0, rej |-> {}, dep |-> 0]
OSt0 == [o |-> [x \in Objs |-> NoObj], in |-> [c \in 1..NCon |-> [x \in Objs |-> {}]]]
Exists(s, x) == s.o[x].k # 0
Outs(s, x) == 1..N(s.o[x].k)
On(s, x, p) == p \notin Static(s.o[x].k) /\ p \notin s.o[x].off /\ p \notin s.o[x].rej
\* ps[j] is what makes a change of several outputs refused
BadAt(s, c, j) ==
  LET x == s.o[c.x] p == c.ps[j] IN
  \/ x.lock = 1
  \/ p > Layers(x.k)[c.l]
  \/ c.op = "en" /\ p \in Static(x.k)
Refused(s, c) ==
  CASE c.op \in {"en", "dis"} -> \E j \in 1..Len(c.ps) : BadAt(s, c, j)
    [] c.op = "dep" -> \E j \in 1..Len(c.ps) : ~On(s, c.x, c.ps[j])
    [] OTHER -> FALSE
Enabled(s, c) ==
  CASE c.op = "new" -> ~Exists(s, c.x)
    [] c.op \in {"en", "dis"} -> Exists(s, c.x) /\ c.l <= Len(Layers(s.o[c.x].k)) /\ \A j \in 1..Len(c.ps) : c.ps[j] \in Outs(s, c.x)
    [] c.op \in {"lock", "unlock"} -> Exists(s, c.x) /\ Len(Layers(s.o[c.x].k)) > 0
    [] c.op = "rej" -> Exists(s, c.x) /\ Custom(s.o[c.x].k) /\ c.p \in Outs(s, c.x)
    [] c.op = "copy" -> Exists(s, c.x) /\ ~Exists(s, c.y)
    [] c.op = "del" -> Exists(s, c.x) /\ s.o[c.x].dep = 0
    [] c.op = "dep" -> Exists(s, c.x) /\ \A j \in 1..Len(c.ps) : c.ps[j] \in Outs(s, c.x)
    [] OTHER -> TRUE
Ps(c) == {c.ps[j] : j \in 1..Len(c.ps)}
\* the states after c. Of several outputs, those before the one that is refused may have been changed
Results(s, c) ==
  IF Refused(s, c) THEN
    IF c.op = "dep" THEN {[s EXCEPT !.o[c.x].dep = 1, !.in[c.d][c.x] = @ \cup {c.ps[j] : j \in 1..n}] : n \in {n \in 0..(Len(c.ps) - 1) : \A j \in 1..n : On(s, c.x, c.ps[j])}}
    ELSE {[s EXCEPT !.o[c.x].off = IF c.op = "en" THEN @ \ {c.ps[j] : j \in 1..n} ELSE @ \cup {c.ps[j] : j \in 1..n}]
          : n \in {n \in 0..(Len(c.ps) - 1) : \A j \in 1..n : ~BadAt(s, c, j)}}
  ELSE {CASE c.op = "new" -> [s EXCEPT !.o[c.x] = [k |-> c.k, off |-> Starts(c.k), lock |-> 0, rej |-> {}, dep |-> 0]]
          [] c.op = "en" -> [s EXCEPT !.o[c.x].off = @ \ Ps(c)]
          [] c.op = "dis" -> [s EXCEPT !.o[c.x].off = @ \cup Ps(c)]
          [] c.op = "lock" -> [s EXCEPT !.o[c.x].lock = 1]
          [] c.op = "unlock" -> [s EXCEPT !.o[c.x].lock = 0]
          [] c.op = "rej" -> [s EXCEPT !.o[c.x].rej = IF c.p \in @ THEN @ \ {c.p} ELSE @ \cup {c.p}]
          [] c.op = "copy" -> [s EXCEPT !.o[c.y] = s.o[c.x]]
          [] c.op = "del" -> [s EXCEPT !.o[c.x] = NoObj]
          [] c.op = "dep" -> [s EXCEPT !.o[c.x].dep = 1, !.in[c.d][c.x] = @ \cup Ps(c)]}
Answer(s, c) == IF Refused(s, c) THEN [exc |-> 1] ELSE [ok |-> 1]
---------------------------------------------------------------------------
NeverStatic == \A x \in Objs : Exists(ou, x) => \A p \in Static(ou.o[x].k) : ~On(ou, x, p)
\* what could be used stays within what was enabled when it was asked for; nothing else is needed
LockHolds == \A x \in Objs : ou.o[x].lock = 1 => \A l \in 1..Len(Layers(ou.o[x].k)), p \in Outs(ou, x), op \in {"en", "dis"} :
               LET c == [op |-> op, x |-> x, l |-> l, ps |-> <<p>>] IN Refused(ou, c) /\ Results(ou, c) = {ou}
OneOnly == \A x \in Objs : Exists(ou, x) => \A l \in 1..Len(Layers(ou.o[x].k)), p \in Outs(ou, x), op \in {"en", "dis"} :
             LET c == [op |-> op, x |-> x, l |-> l, ps |-> <<p>>] IN
               \A t \in Results(ou, c) : \A y \in Objs : Exists(ou, y) => \A q \in Outs(ou, y) : (y # x \/ q # p) => (On(t, y, q) <=> On(ou, y, q))
=============================================================================
