------------------------------ MODULE LspTrace ------------------------------
(* Recorded executions of control problems and resolution schemes, checked against Lsp. *)
EXTENDS Lsp, Json, IOUtils
VARIABLES tid, i, ans      \* ans: what the last solve had to hand over (empty: last command was not a solve)
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev(k) == Traces[tid].e[k]
Do(c, r) ==
  CASE c.op = "add" -> AddTask(c.k + 1, c.t + 1) /\ ans' = <<>>
    [] c.op = "remove" -> RemoveTask(c.k + 1, c.t + 1) /\ ans' = <<>>
    [] c.op = "weight" -> SetWeight(c.t + 1, c.w) /\ ans' = <<>>
    [] c.op = "aweight" -> SetAWeight(c.t + 1, c.aw) /\ ans' = <<>>
    [] c.op = "b" -> SetB(c.t + 1, c.b) /\ ans' = <<>>
    [] c.op = "A" -> SetA(c.t + 1, c.i + 1, c.M) /\ ans' = <<>>
    [] c.op = "x" -> SetX(c.v + 1, c.d, c.x) /\ ans' = <<>>
    [] c.op = "solve" ->
         LET k == c.k + 1 s == c.s + 1 IN
         IF "exc" \in DOMAIN r THEN Refused(k, s) /\ ans' = <<>>
         ELSE /\ Solve(k, s, IF c.ok = 1 THEN c.sol ELSE Ev(i + 1).s.val)
              /\ ans' = IF st.in[k] = {} THEN <<>> ELSE IF Hier(s) THEN <<ExpectedH(st.in[k], cat.schemes[s].damp = 1)>>
                        ELSE <<Expected(st.in[k], cat.schemes[s].damp = 1)>>
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ ans = <<>> /\ cat = Traces[tid].cfg /\ st = LInitSt(cat)
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ UNCHANGED <<tid, cat>> /\ Do(Ev(i + 1).c, Ev(i + 1).r)
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<tid, i, cat, st, ans>>
IsSolve == i > 0 /\ Ev(i).c.op = "solve"
Exc == "exc" \in DOMAIN Ev(i).r
NoExc == i > 0 /\ Exc => IsSolve
Real == IsSolve /\ ~Exc /\ ans # <<>>
R == Ev(i).r
G == Ev(i).r.q
SetOf(s) == {s[k] : k \in 1..Len(s)}
Handled == Real => R.n = 1 /\ G.bad = 0
VarsOk == Real => G.present = ans[1].present
BoundsOk == Real => G.lo = ans[1].lo /\ G.hi = ans[1].hi
SplitRow(r) == <<SubSeq(r, 1, NC), r[NC + 1]>>
IsH == Real /\ "lvl" \in DOMAIN ans[1]
Rws(q) == {SplitRow(r) : r \in SetOf(q)}
EqsOk == Real => (IF IsH THEN PrimSet(Rws(G.eqs)) ELSE Rws(G.eqs)) = ans[1].eqs
IneqsOk == Real => (IF IsH THEN PrimSet(Rws(G.ineqs)) ELSE Rws(G.ineqs)) = ans[1].ineqs
LevelsOk == IsH => /\ Len(G.lvl) = Len(ans[1].lvl)
                  /\ \A n \in 1..Len(G.lvl) :
                       /\ G.lvl[n].Q = ans[1].lvl[n].Q /\ G.lvl[n].c = ans[1].lvl[n].c
                       /\ Count([k \in 1..Len(G.lvl[n].ineqs) |-> SplitRow(G.lvl[n].ineqs[k])]) = ans[1].lvl[n].ineqs
\* the objective is defined up to a common factor (priorities are emulated relatively to one another)
Same(e, o, k) == IF k >= 0 THEN e % Pow(4, k) = 0 /\ o = e \div Pow(4, k) ELSE o % Pow(4, -k) = 0 /\ e = o \div Pow(4, -k)
ObjectiveOk == Real /\ ~IsH => \E k \in -3..3 :
  /\ \A x \in 1..NC : Same(ans[1].c[x], G.c[x], k)
  /\ \A x, y \in 1..NC : Same(ans[1].Q[x][y], G.Q[x][y], k)
\* solve answers what the solver answered, and writes its result in the variables of the problem, and only there
Answer == IsSolve /\ ~Exc => R.ok = (IF ans = <<>> THEN 1 ELSE Ev(i).c.ok)
Values == i > 0 => (IF IsSolve /\ ~Exc /\ Ev(i).c.ok = 0 THEN \A x \in 1..NC : (ans # <<>> /\ ans[1].present[x] = 1) \/ Ev(i).s.val[x] = st.val[x]
                    ELSE Ev(i).s.val = st.val)
Sizes == i > 0 => \A k \in Probs : Ev(i).s.size[k] = Cardinality(st.in[k])
Short == [tid |-> tid, i |-> i, st |-> st, want |-> ans]
=============================================================================
