-------------------------------- MODULE Reqs --------------------------------
(* Solving requirements: four requirements per object, each with its value and whether it is the default.
   Objects are light ("l") or notify their changes ("n": callbacks registered per requirement, identified by
   tokens). Values are numbers; what they stand for is known to the driver only:
   1 priority level p, 2 weight, 3 anisotropic weight (0: the empty vector), 4 violation evaluation.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NObj, Vals, Kinds, MaxCb
VARIABLE rq
Objs == 1..NObj
DefVal(k) == CASE k = 1 -> 0 [] k = 2 -> 1 [] k = 3 -> 0 [] k = 4 -> 1
Default(k) == [v |-> DefVal(k), d |-> 1]
Set(v) == [v |-> v, d |-> 0]
None4 == [k \in 1..4 |-> Default(k)]
NoObj == [t |-> "", r |-> None4, cb |-> [k \in 1..4 |-> <<>>]]
Exists(s, o) == s.o[o].t # ""
Light(s, o) == s.o[o].t = "l"
Full(s, o) == s.o[o].t = "n"
RECURSIVE Build(_, _)
Build(r, args) == IF args = <<>> THEN r ELSE Build([r EXCEPT ![Head(args)[1]] = Set(Head(args)[2])], Tail(args))
Refused(args) == \E a \in 1..Len(args) : args[a][2] < 0
New(s, o, t, r) == [s EXCEPT !.o[o] = [t |-> t, r |-> r, cb |-> [k \in 1..4 |-> <<>>]]]
\* the callbacks of a destroyed object are released
Drop(s, o) == [s EXCEPT !.o[o] = NoObj]
Enabled(s, c) ==
  CASE c.op = "build" -> ~Exists(s, c.o)
    [] c.op = "full" -> ~Exists(s, c.o) /\ Light(s, c.o2)
    [] c.op = "copy" -> ~Exists(s, c.o) /\ Light(s, c.o2)
    [] c.op = "assign" -> Light(s, c.o) /\ Light(s, c.o2)
    [] c.op \in {"set", "seteq", "reset"} -> Exists(s, c.o)
    [] c.op = "from" -> Exists(s, c.o) /\ Exists(s, c.o2) /\ (Light(s, c.o) \/ Light(s, c.o2))
    [] c.op = "drop" -> TRUE
    [] c.op = "reg" -> Full(s, c.o) /\ s.next <= MaxCb
    [] c.op = "rel" -> c.c < s.next
\* the requirement k of o becomes x
Put(s, o, k, x) == [s EXCEPT !.o[o].r[k] = x]
Target(s, c) == CASE c.op \in {"set", "seteq"} -> Set(c.v) [] c.op = "reset" -> Default(c.k) [] c.op = "from" -> s.o[c.o2].r[c.k]
Apply(s, c) ==
  CASE c.op = "build" -> IF Refused(c.args) THEN s ELSE New(s, c.o, c.t, Build(None4, c.args))
    [] c.op = "full" -> New(s, c.o, "n", s.o[c.o2].r)
    [] c.op = "copy" -> New(s, c.o, "l", s.o[c.o2].r)
    [] c.op = "assign" -> [s EXCEPT !.o[c.o].r = s.o[c.o2].r]
    [] c.op \in {"set", "seteq", "reset", "from"} -> Put(s, c.o, c.k, Target(s, c))
    [] c.op = "drop" -> Drop(s, c.o)
    [] c.op = "reg" -> [s EXCEPT !.o[c.o].cb[c.k] = Append(@, s.next), !.next = @ + 1]
    [] c.op = "rel" -> [s EXCEPT !.o = [o \in Objs |-> [s.o[o] EXCEPT !.cb = [k \in 1..4 |-> SelectSeq(s.o[o].cb[k], LAMBDA x : x # c.c)]]]]
\* the callbacks that the step runs, each with what it sees
Notified(s, c) ==
  IF c.op \in {"set", "seteq", "reset", "from"} /\ Full(s, c.o)
  THEN LET l == s.o[c.o].cb[c.k] IN [n \in 1..Len(l) |-> [c |-> l[n], x |-> Target(s, c)]]
  ELSE <<>>
\* nothing needs to be said when nothing changes
Unchanged(s, c) == c.op \in {"set", "seteq", "reset", "from"} /\ s.o[c.o].r[c.k] = Target(s, c)
RSt0 == [o |-> [x \in Objs |-> NoObj], next |-> 1]
(* checked on the model *)
NeverSetIsDefault == \A o \in Objs, k \in 1..4 : rq.o[o].r[k].d = 1 => rq.o[o].r[k].v = DefVal(k)
OneRegistration == \A o, p \in Objs, k, l \in 1..4 : \A a \in 1..Len(rq.o[o].cb[k]), b \in 1..Len(rq.o[p].cb[l]) :
                     rq.o[o].cb[k][a] = rq.o[p].cb[l][b] => o = p /\ k = l /\ a = b
LightHasNone == \A o \in Objs : ~Full(rq, o) => \A k \in 1..4 : rq.o[o].cb[k] = <<>>
=============================================================================
