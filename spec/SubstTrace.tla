----------------------------- MODULE SubstTrace -----------------------------
(* Recorded executions of control problems with substitutions, checked against Subst. *)
EXTENDS Subst, Json, IOUtils
VARIABLES tid, i, told     \* told: what the specification says of the points of the last resolution, the state before it
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev(k) == Traces[tid].e[k]
None == [pts |-> <<>>, rem |-> 0, ok |-> TRUE]
Exc(r) == "exc" \in DOMAIN r
Do(c, r, s) ==
  CASE c.op = "add" -> AddTask(c.t + 1) /\ told' = None
    [] c.op = "remove" -> RemoveTask(c.t + 1) /\ told' = [None EXCEPT !.ok = (Exc(r) <=> RefusesRemove(c.t + 1))]
    [] c.op = "sub" -> AddSub(c.u + 1) /\ told' = None
    [] c.op = "unsub" -> RemoveSub(c.u + 1) /\ told' = None
    [] c.op = "base" -> Base(c.n, c.b) /\ told' = None
    [] c.op = "scale" -> Scale(c.t + 1, c.f, c.b) /\ told' = None
    [] c.op = "b" -> SetB(c.t + 1, c.b) /\ told' = None
    [] c.op = "weight" -> SetWeight(c.t + 1, c.w) /\ told' = None
    [] c.op = "x" -> SetX(c.v + 1, c.x) /\ told' = None
    [] c.op = "solve" ->
         /\ Solved(s.val)
         /\ told' = [pts |-> [k \in 1..Len(c.pts) |-> LET f == Feasible(c.pts[k]) IN [f |-> IF f THEN 1 ELSE 0, o |-> IF f THEN Cost(c.pts[k]) ELSE 0]],
                     rem |-> Cardinality(Remaining),
                     ok |-> Exc(r) \/ ((r.big = 1 \/ r.conf = 1 \/ Satisfies(s.val)) /\ Untouched(s.val))]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ told = None /\ cat = Traces[tid].cfg /\ st = InitSt(cat)
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ UNCHANGED <<tid, cat>> /\ Do(Ev(i + 1).c, Ev(i + 1).r, Ev(i + 1).s)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<tid, i, cat, st, told>>
IsSolve == i > 0 /\ Ev(i).c.op = "solve"
R == Ev(i).r
NoExc == i > 0 => (~Exc(R) \/ Ev(i).c.op = "remove")
Values == i > 0 => told.ok /\ Ev(i).s.val = st.val
Handled == IsSolve => /\ R.ok = 1 /\ R.bad = 0 /\ (R.cons = 1 \/ R.conf = 1)
                      /\ (R.conf = 1 => \E t \in st.in : Hard(t) /\ ~HardEq(t))
                      /\ IF told.rem > 0 THEN R.n = 1 ELSE R.n \in {0, 1}
PointsOk == IsSolve => \A k \in 1..Len(R.pts) : R.pts[k].f = told.pts[k].f
Near(x, y) == Abs(x - y) <= 2
CostOk == IsSolve /\ (\E t \in st.in : ~Hard(t)) => \E m \in {1, 4} : \A k \in 1..Len(R.pts) :
  told.pts[k].f = 1 => Near(m * R.pts[k].o, OScale * told.pts[k].o)
Sizes == i > 0 => Ev(i).s.size = Cardinality(st.in) /\ Ev(i).s.subs = Cardinality(st.act)
Short == [tid |-> tid, i |-> i, st |-> st, want |-> told]
=============================================================================
