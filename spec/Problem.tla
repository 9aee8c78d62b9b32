------------------------------ MODULE Problem ------------------------------
(* Control problems, the tasks they hold, and the events they queue for the resolution schemes
   that solve them.  Problem 0 is a plain ControlProblem (never solved), problems 1..K are
   LinearizedControlProblem.  Tasks are 1..T (TaskWithRequirements, shared by the problems);
   schemes are 1..S.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, T, S
VARIABLES in,      \* in[k]: sequence of the tasks of problem k
          subs,    \* subs[k]: sequence of substitutions (sets of tasks)
          known,   \* known[k]: schemes that already solved problem k
          q        \* q[k][s]: events not yet read by scheme s
pvars == <<in, subs, known, q>>
Ks == 0..K
Ts == 1..T
Ss == 1..S
Rng(s) == {s[j] : j \in 1..Len(s)}
PInit == in = [k \in Ks |-> <<>>] /\ subs = [k \in Ks |-> <<>>] /\ known = [k \in Ks |-> {}]
         /\ q = [k \in Ks |-> [s \in Ss |-> <<>>]]
Has(k, t) == t \in Rng(in[k])
Ev(y, t) == [y |-> y, t |-> t]
(* A removal makes the pending events of the task useless; if its addition is pending too, the
   removal itself is not needed.                                                               *)
Push(l, e) ==
  IF e.y = "rm"
  THEN LET keep(x) == ~(x.t = e.t /\ x.y # "rm")
           l2 == SelectSeq(l, keep)
       IN IF Ev("add", e.t) \in Rng(l) THEN l2 ELSE Append(l2, e)
  ELSE Append(l, e)
RECURSIVE PushAll(_, _)
PushAll(l, es) == IF es = <<>> THEN l ELSE PushAll(Push(l, Head(es)), Tail(es))
Told(k, es) == [s \in Ss |-> IF s \in known[k] THEN PushAll(q[k][s], es) ELSE q[k][s]]
WithoutTask(l, t) == LET keep(x) == x # t IN SelectSeq(l, keep)
---------------------------------------------------------------------------
Add(k, t) ==
  /\ ~Has(k, t)
  /\ in' = [in EXCEPT ![k] = Append(@, t)]
  /\ q' = [q EXCEPT ![k] = Told(k, <<Ev("add", t)>>)]
  /\ UNCHANGED <<subs, known>>
SubsOf(k, t) == {x \in Rng(subs[k]) : t \in x}
NonSimple(k, t) == \E x \in SubsOf(k, t) : Cardinality(x) > 1
(* Removing an unknown task is ignored; removing a task used by a substitution of several tasks
   is refused.                                                                                 *)
Remove(k, t) ==
  IF ~Has(k, t) \/ NonSimple(k, t) THEN UNCHANGED pvars
  ELSE /\ in' = [in EXCEPT ![k] = WithoutTask(@, t)]
       /\ subs' = [subs EXCEPT ![k] = WithoutTask(@, {t})]
       /\ q' = [q EXCEPT ![k] = Told(k, (IF SubsOf(k, t) # {} THEN <<Ev("srm", 0)>> ELSE <<>>) \o <<Ev("rm", t)>>)]
       /\ known' = known
RemoveExc(k, t) == Has(k, t) /\ NonSimple(k, t)
(* Change of the scalar (w) or anisotropic (aw) weight of a task. *)
Weight(y, t) ==
  /\ q' = [k \in Ks |-> IF Has(k, t) THEN Told(k, <<Ev(y, t)>>) ELSE q[k]]
  /\ UNCHANGED <<in, subs, known>>
AddSub(k, x) ==
  /\ k > 0 /\ \A t \in x : Has(k, t) /\ SubsOf(k, t) = {}
  /\ subs' = [subs EXCEPT ![k] = Append(@, x)]
  /\ q' = [q EXCEPT ![k] = Told(k, <<Ev("sadd", 0)>>)]
  /\ UNCHANGED <<in, known>>
RemSub(k, x) ==
  /\ x \in Rng(subs[k])
  /\ subs' = [subs EXCEPT ![k] = WithoutTask(@, x)]
  /\ q' = [q EXCEPT ![k] = Told(k, <<Ev("srm", 0)>>)]
  /\ UNCHANGED <<in, known>>
(* First solve: the scheme reads the whole problem (and knows nothing if it fails); next ones: it
   reads the events queued since its last solve.                                               *)
Solve(k, s) ==
  /\ k > 0
  /\ known' = [known EXCEPT ![k] = @ \cup {s}]
  /\ q' = [q EXCEPT ![k] = [@ EXCEPT ![s] = <<>>]]
  /\ UNCHANGED <<in, subs>>
SolveFail(k, s) == k > 0 /\ s \notin known[k] /\ UNCHANGED pvars
Nop == UNCHANGED pvars
Forget(k) == /\ known' = [known EXCEPT ![k] = {}]
             /\ q' = [q EXCEPT ![k] = [s \in Ss |-> <<>>]]
(* Destruction: problem k is replaced by a new one, empty or holding the tasks of problem j. *)
Reset(k) == in' = [in EXCEPT ![k] = <<>>] /\ subs' = [subs EXCEPT ![k] = <<>>] /\ Forget(k)
CopyFrom(k, j) == k > 0 /\ k # j /\ in' = [in EXCEPT ![k] = in[j]] /\ subs' = [subs EXCEPT ![k] = <<>>] /\ Forget(k)
NewScheme(s) == /\ known' = [k \in Ks |-> known[k] \ {s}]
                /\ q' = [k \in Ks |-> [q[k] EXCEPT ![s] = <<>>]]
                /\ UNCHANGED <<in, subs>>
---------------------------------------------------------------------------
(* What a scheme believes the tasks of the problem to be, once it has read its events, is what
   they are: belief[k][s] is recomputed from the queue.                                        *)
NoDup == \A k \in Ks : \A a, b \in 1..Len(in[k]) : in[k][a] = in[k][b] => a = b
QueueOk == \A k \in Ks, s \in Ss : LET l == q[k][s] IN
  /\ s \notin known[k] => l = <<>>
  /\ \A j \in 1..Len(l) : l[j].t # 0 => (l[j].y = "rm" \/ Has(k, l[j].t))              \* only removals for absent tasks
  /\ \A j \in 1..Len(l) : l[j].y = "add" => \A h \in 1..Len(l) : l[h].y = "rm" /\ l[h].t = l[j].t => h < j
  /\ \A j, h \in 1..Len(l) : l[j] = l[h] /\ l[j].y \in {"add", "rm"} => j = h
SubsOk == \A k \in Ks : \A x \in Rng(subs[k]) : \A t \in x : Has(k, t)
=============================================================================
