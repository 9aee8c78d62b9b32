------------------------------- MODULE Subst -------------------------------
(* Substitutions in control problems (C10).

   A catalog `cat` gives variables (dims), tasks (linear functions of variables or parts of them, relation to lo (hi),
   priority 0 or 1), and possible substitutions: the constraints c of some tasks are used to express some variables x.
   All the equality tasks of priority 0 are kept consistent with a point (`base`), so that the problem has solutions.

   The state is the set of tasks in the problem, of the substitutions in use, and the current data. Substitutions are a
   hint: what the problem means (Feasible, Cost) does not depend on them. A resolution gives for every point whether
   it is a solution of the problem handed to the solver completed by the substituted variables, and its cost.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
VARIABLES cat, st
svars == <<cat, st>>
VScale == 4096
OScale == 4
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Abs(x) == IF x < 0 THEN -x ELSE x

NV == Len(cat.dims)
NC == Sum(cat.dims)
Off(v) == Sum(SubSeq(cat.dims, 1, v - 1))
Tasks == 1..Len(cat.tasks)
Subs == 1..Len(cat.subs)
T(t) == cat.tasks[t]
Rows(t) == 1..Len(T(t).b)
Block(t, k) == T(t).bl[k]
First(t, k) == Off(Block(t, k).v + 1) + Block(t, k).off
ColsOf(t) == UNION {{First(t, k) + j : j \in 1..Block(t, k).len} : k \in 1..Len(T(t).bl)}
\* row i of the matrix of t, when its scale is s, times p. The scale does not apply to the blocks declared constant.
Factor(t, k, s) == IF Block(t, k).cst THEN 1 ELSE s
Dot(t, i, s, p) == Sum([k \in 1..Len(T(t).bl) |-> Factor(t, k, s) * Sum([j \in 1..Block(t, k).len |-> Block(t, k).M[i][j] * p[First(t, k) + j]])])
Norm1(t, i) == Sum([k \in 1..Len(T(t).bl) |-> Sum([j \in 1..Block(t, k).len |-> Abs(Block(t, k).M[i][j])])])
Val(t, i, p) == Dot(t, i, st.sc[t], p) + st.b[t][i]
Hard(t) == T(t).p = 0
HardEq(t) == T(t).p = 0 /\ T(t).t = "eq"
\* b for which the hard task t (scaled by s) holds at point p
Slack(t, i) == (t + i) % 3
Target(t, i) == CASE T(t).t = "eq" -> T(t).lo[i]
                  [] T(t).t = "ge" -> T(t).lo[i] + Slack(t, i)
                  [] T(t).t = "le" -> T(t).lo[i] - Slack(t, i)
                  [] OTHER -> Min({T(t).lo[i] + Slack(t, i), T(t).hi[i]})
BFor(t, s, p) == [i \in Rows(t) |-> Target(t, i) - Dot(t, i, s, p)]

Holds(t, p) == \A i \in Rows(t) :
  LET v == Val(t, i, p) IN
  CASE T(t).t = "eq" -> v = T(t).lo[i]
    [] T(t).t = "ge" -> v >= T(t).lo[i]
    [] T(t).t = "le" -> v <= T(t).lo[i]
    [] OTHER -> v >= T(t).lo[i] /\ v <= T(t).hi[i]
Feasible(p) == \A t \in st.in : Hard(t) => Holds(t, p)
W(t) == IF st.w[t] = 0 THEN 1 ELSE st.w[t]
AW(t, i) == IF T(t).aw = <<>> THEN 1 ELSE T(t).aw[i]
Objs == {t \in st.in : ~Hard(t)}
Cost(p) == FoldSet(LAMBDA t, a : a + W(t) * Sum([i \in Rows(t) |-> LET d == Val(t, i, p) - T(t).lo[i] IN AW(t, i) * d * d]), 0, Objs)

UsedBy(t) == {s \in st.act : \E k \in 1..Len(cat.subs[s].c) : cat.subs[s].c[k] + 1 = t}
Simple(s) == Len(cat.subs[s].c) = 1 /\ Len(cat.subs[s].x) = 1
CstrOf(s) == {cat.subs[s].c[k] + 1 : k \in 1..Len(cat.subs[s].c)}
Remaining == st.in \ UNION {CstrOf(s) : s \in st.act}

InitSt(c) == [in |-> {}, act |-> {},
              b |-> [t \in 1..Len(c.tasks) |-> c.tasks[t].b],
              sc |-> [t \in 1..Len(c.tasks) |-> 1],
              w |-> [t \in 1..Len(c.tasks) |-> c.tasks[t].w],
              base |-> 1,
              val |-> [j \in 1..Sum(c.dims) |-> 0]]
AddTask(t) == t \notin st.in /\ st' = [st EXCEPT !.in = @ \cup {t}]
\* a task whose constraint is used by a substitution of several constraints or variables cannot be removed
RefusesRemove(t) == t \in st.in /\ (\E s \in UsedBy(t) : ~Simple(s))
RemoveTask(t) == IF RefusesRemove(t) THEN UNCHANGED st
             ELSE st' = [st EXCEPT !.in = @ \ {t}, !.act = IF t \in st.in THEN @ \ UsedBy(t) ELSE @]
AddSub(s) == s \notin st.act /\ CstrOf(s) \subseteq st.in /\ st' = [st EXCEPT !.act = @ \cup {s}]
RemoveSub(s) == s \in st.act /\ st' = [st EXCEPT !.act = @ \ {s}]
Base(n, bs) == st' = [st EXCEPT !.base = n, !.b = bs]
BasesFor(n) == [t \in Tasks |-> IF Hard(t) THEN BFor(t, st.sc[t], cat.base[n]) ELSE st.b[t]]
CanScale(t) == /\ \A k \in 1..Len(T(t).bl) : Block(t, k).cst \/ Block(t, k).p \in {"none", "diag"}
               /\ \E k \in 1..Len(T(t).bl) : ~Block(t, k).cst
Scale(t, s, b) == CanScale(t) /\ st' = [st EXCEPT !.sc[t] = s, !.b[t] = b]
ScaledB(t, s) == IF Hard(t) THEN BFor(t, s, cat.base[st.base]) ELSE st.b[t]
SetB(t, b) == ~HardEq(t) /\ st' = [st EXCEPT !.b[t] = b]
SetWeight(t, w) == ~Hard(t) /\ st' = [st EXCEPT !.w[t] = w]
SetX(v, x) == st' = [st EXCEPT !.val = [j \in 1..NC |-> IF j > Off(v) /\ j <= Off(v) + Len(x) THEN VScale * x[j - Off(v)] ELSE @[j]]]
\* the values of the variables after a resolution: any, as far as the tasks that are equalities hold and only the variables
\* of the problem change
Satisfies(val) == \A t \in st.in : HardEq(t) => \A i \in Rows(t) :
  Abs(Dot(t, i, st.sc[t], val) + VScale * (st.b[t][i] - T(t).lo[i])) <= Abs(st.sc[t]) * Norm1(t, i) + 2
Untouched(val) == \A j \in 1..NC : j \in UNION {ColsOf(t) : t \in st.in} \/ val[j] = st.val[j]
Solved(val) == st' = [st EXCEPT !.val = val]
=============================================================================
