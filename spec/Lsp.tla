-------------------------------- MODULE Lsp --------------------------------
(* Control problems solved by a resolution scheme.

   A catalog `cat` gives the variables (dims), the tasks that exist and the schemes. A task is a linear
   function f(x) = sum M_k x_k + b of some variables (or sub-variables, or first derivatives), a relation
   (eq, ge, le, ds) to right-hand side(s) lo (hi), a dynamics (kp = 0: none, kp > 0: proportional) and
   requirements (priority p, weight w, anisotropic weight aw).

   The state is what a user manipulates: the tasks that each problem contains, the weights, the data of
   the functions, the values of the variables. What the solver must be given is a function Expected of
   that state only: it may not depend on the history that led to the state. (C07, C08, C09, C20)

   Columns: the components of all variables and of their first derivatives, numbered globally.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
VARIABLES cat, st
lvars == <<cat, st>>

INF == 1000000
BoxScale == 12
QScale == 64

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxOf(S, d) == IF S = {} THEN d ELSE Max(S)
MinOf(S, d) == IF S = {} THEN d ELSE Min(S)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow(_, _)
Pow(b, e) == IF e <= 0 THEN 1 ELSE b * Pow(b, e - 1)

(* ------------------------------------------------------------- columns *)
NV == Len(cat.dims)
N == Sum(cat.dims)
NC == 2 * N
Off(v) == Sum(SubSeq(cat.dims, 1, v - 1))             \* v is 1-based
Tasks == 1..Len(cat.tasks)
T(t) == cat.tasks[t]
Rows(t) == 1..Len(T(t).b)
Ord(t) == IF T(t).kp = 0 THEN 0 ELSE 1
\* first column (0-based) of block k of task t, at derivative dd
BCol(t, k, dd) == dd * N + Off(T(t).bl[k].v + 1) + T(t).bl[k].off
TaskCols(t) == UNION {{BCol(t, k, T(t).d + Ord(t)) + j : j \in 1..T(t).bl[k].len} : k \in 1..Len(T(t).bl)}
\* matrices as they are now
M(t, k) == st.A[t][k]
Coef(t, i) == [c \in 1..NC |->
  Sum([k \in 1..Len(T(t).bl) |->
    LET o == BCol(t, k, T(t).d + Ord(t)) IN IF c > o /\ c <= o + T(t).bl[k].len THEN M(t, k)[i][c - o] ELSE 0])]
FVal(t, i) == st.b[t][i] + Sum([k \in 1..Len(T(t).bl) |->
  Sum([j \in 1..T(t).bl[k].len |-> M(t, k)[i][j] * st.val[BCol(t, k, T(t).d) + j]])])
\* right-hand side of the linearized constraint for a reference r of the task
Rhs(t, i, r) == IF T(t).kp = 0 THEN r[i] - st.b[t][i] ELSE -T(t).kp * (FVal(t, i) - r[i])

(* ----------------------------------------------- constraints as rows l <= a x <= u *)
Row(t, i) ==
  [a |-> Coef(t, i),
   l |-> CASE T(t).t \in {"eq", "ge", "ds"} -> Rhs(t, i, T(t).lo) [] OTHER -> -INF,
   u |-> CASE T(t).t \in {"eq", "le"} -> Rhs(t, i, T(t).lo) [] T(t).t = "ds" -> Rhs(t, i, T(t).hi) [] OTHER -> INF]
HardRows(S) == UNION {{Row(t, i) : i \in Rows(t)} : t \in {x \in S : T(x).p = 0}}
NZ(a) == {c \in 1..NC : a[c] # 0}
Neg(a) == [c \in 1..NC |-> -a[c]]
First(a) == Min(NZ(a))
\* bounds implied by the rows with a single coefficient, in units of 1/BoxScale
LoB(R, c) == MaxOf({IF r.a[c] > 0 THEN (BoxScale * r.l) \div r.a[c] ELSE (BoxScale * r.u) \div r.a[c] :
                    r \in {x \in R : NZ(x.a) = {c} /\ (IF x.a[c] > 0 THEN x.l > -INF ELSE x.u < INF)}}, -INF)
UpB(R, c) == MinOf({IF r.a[c] > 0 THEN (BoxScale * r.u) \div r.a[c] ELSE (BoxScale * r.l) \div r.a[c] :
                    r \in {x \in R : NZ(x.a) = {c} /\ (IF x.a[c] > 0 THEN x.u < INF ELSE x.l > -INF)}}, INF)
EqRows(R) ==
  {IF r.a[First(r.a)] > 0 THEN <<r.a, r.l>> ELSE <<Neg(r.a), -r.l>> : r \in {x \in R : Cardinality(NZ(x.a)) > 1 /\ x.l = x.u}}
  \cup {<<r.a, Abs(r.l)>> : r \in {x \in R : NZ(x.a) = {} /\ x.l = x.u /\ x.l # 0}}
IneqRows(R) ==
  LET Q == {x \in R : Cardinality(NZ(x.a)) # 1 /\ x.l # x.u} IN
  {<<r.a, r.l>> : r \in {x \in Q : x.l > -INF /\ ~(NZ(x.a) = {} /\ x.l <= 0)}}
  \cup {<<Neg(r.a), -r.u>> : r \in {x \in Q : x.u < INF /\ ~(NZ(x.a) = {} /\ x.u >= 0)}}

(* ------------------------------------------------------------ objective *)
Obj(S) == {t \in S : T(t).p > 0}
MaxP(S) == MaxOf({T(t).p : t \in Obj(S)}, 0)
W(t) == IF st.w[t] = 0 THEN 1 ELSE st.w[t]
AW(t, i) == IF st.aw[t] = <<>> THEN 1 ELSE st.aw[t][i]
\* sequence of weighted rows [g |-> weight, a, b] of the objective sum g (a x - b)^2
ORows(S) ==
  LET rowsOf(t) == [i \in Rows(t) |-> [g |-> QScale * Pow(4, MaxP(S) - T(t).p) * W(t) * AW(t, i), a |-> Coef(t, i), b |-> Rhs(t, i, T(t).lo)]]
  IN FlattenSeq([n \in 1..Cardinality(Obj(S)) |-> rowsOf(SetToSeq(Obj(S))[n])])

(* What the solver must be given for the tasks S (damp: the scheme adds |x|^2 when there is no objective). *)
Present(S) == UNION {TaskCols(t) : t \in S}
Expected(S, damp) ==
  LET R == HardRows(S)
      O == ORows(S)
      mn == damp /\ Obj(S) = {}
  IN [present |-> [c \in 1..NC |-> IF c \in Present(S) THEN 1 ELSE 0],
      lo |-> [c \in 1..NC |-> LoB(R, c)],
      hi |-> [c \in 1..NC |-> UpB(R, c)],
      eqs |-> EqRows(R),
      ineqs |-> IneqRows(R),
      Q |-> [j \in 1..NC |-> [k \in 1..NC |-> IF mn THEN IF j = k /\ j \in Present(S) THEN QScale ELSE 0
                                                   ELSE Sum([x \in 1..Len(O) |-> O[x].g * O[x].a[j] * O[x].a[k]])]],
      c |-> [j \in 1..NC |-> Sum([x \in 1..Len(O) |-> O[x].g * O[x].a[j] * O[x].b])]]

(* -------------------------------------------------------- hierarchical problems *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
\* a row <<a, l>> divided by the greatest common divisor of its elements
GcdRow(r) == FoldLeft(LAMBDA x, y : Gcd(x, Abs(y)), Abs(r[2]), r[1])
Prim(r) == LET g == GcdRow(r) IN IF g <= 1 THEN r ELSE <<[c \in DOMAIN r[1] |-> IF r[1][c] < 0 THEN -((-r[1][c]) \div g) ELSE r[1][c] \div g],
                                                   IF r[2] < 0 THEN -((-r[2]) \div g) ELSE r[2] \div g>>
PrimSet(R) == {Prim(r) : r \in R}
Isqrt(x) == CHOOSE k \in 0..40 : k * k = x
Scaled(s, r) == <<[c \in DOMAIN r[1] |-> s * r[1][c]], s * r[2]>>
\* violation of the inequalities of task t: sequence of rows <<a, l>> (a x >= l), scaled by the square root of the weights
WIneqs(t) == FlattenSeq([i \in Rows(t) |->
   LET r == Row(t, i) s == Isqrt(W(t) * AW(t, i)) IN
   (IF r.l > -INF THEN <<Scaled(s, <<r.a, r.l>>)>> ELSE <<>>) \o (IF r.u < INF THEN <<Scaled(s, <<Neg(r.a), -r.u>>)>> ELSE <<>>)])
Count(seq) == [x \in {seq[k] : k \in 1..Len(seq)} |-> Cardinality({k \in 1..Len(seq) : seq[k] = x})]
Level(S, p) ==
  LET E == SetToSeq({t \in S : T(t).p = p /\ T(t).t = "eq"})
      I == SetToSeq({t \in S : T(t).p = p /\ T(t).t # "eq"})
      O == FlattenSeq([n \in 1..Len(E) |-> [i \in Rows(E[n]) |-> [g |-> QScale * W(E[n]) * AW(E[n], i), a |-> Coef(E[n], i), b |-> Rhs(E[n], i, T(E[n]).lo)]]])
  IN [ineqs |-> Count(FlattenSeq([n \in 1..Len(I) |-> WIneqs(I[n])])),
      Q |-> [j \in 1..NC |-> [k \in 1..NC |-> Sum([x \in 1..Len(O) |-> O[x].g * O[x].a[j] * O[x].a[k]])]],
      c |-> [j \in 1..NC |-> Sum([x \in 1..Len(O) |-> O[x].g * O[x].a[j] * O[x].b])]]
MinNormLevel(S) == [ineqs |-> Count(<<>>), Q |-> [j \in 1..NC |-> [k \in 1..NC |-> IF j = k /\ j \in Present(S) THEN QScale ELSE 0]], c |-> [j \in 1..NC |-> 0]]
Priorities(S) == SetToSortSeq({T(t).p : t \in Obj(S)}, <)
ExpectedH(S, damp) ==
  LET R == HardRows(S) P == Priorities(S)
  IN [present |-> [c \in 1..NC |-> IF c \in Present(S) THEN 1 ELSE 0],
      lo |-> [c \in 1..NC |-> LoB(R, c)],
      hi |-> [c \in 1..NC |-> UpB(R, c)],
      eqs |-> PrimSet(EqRows(R)),
      ineqs |-> PrimSet(IneqRows(R)),
      lvl |-> [n \in 1..Len(P) |-> Level(S, P[n])] \o (IF damp THEN <<MinNormLevel(S)>> ELSE <<>>)]

(* ------------------------------------------------------------- commands *)
Hier(s) == cat.schemes[s].kind = 1
Probs == 1..cat.np
LInitSt(c) == [in |-> [k \in 1..c.np |-> {}],
               w |-> [t \in 1..Len(c.tasks) |-> c.tasks[t].w],
               aw |-> [t \in 1..Len(c.tasks) |-> c.tasks[t].aw],
               b |-> [t \in 1..Len(c.tasks) |-> c.tasks[t].b],
               A |-> [t \in 1..Len(c.tasks) |-> [k \in 1..Len(c.tasks[t].bl) |-> c.tasks[t].bl[k].M]],
               val |-> [j \in 1..(2 * Sum(c.dims)) |-> 0],
               made |-> [k \in 1..c.np |-> [s \in 1..Len(c.schemes) |-> FALSE]],
               reb |-> [k \in 1..c.np |-> [s \in 1..Len(c.schemes) |-> FALSE]],
               pend |-> [k \in 1..c.np |-> [s \in 1..Len(c.schemes) |-> {}]]]
AddTask(k, t) == t \notin st.in[k] /\ st' = [st EXCEPT !.in[k] = @ \cup {t}]
RemoveTask(k, t) == st' = [st EXCEPT !.in[k] = @ \ {t}, !.pend[k] = [s \in DOMAIN @ |-> @[s] \ {t}]]
\* weights have no meaning at priority 0: a change is refused by the next resolution (once) of the
\* problems and schemes that have already been solved together
Pending(t) == IF T(t).p > 0 THEN st.pend
              ELSE [k \in Probs |-> [s \in 1..Len(cat.schemes) |-> IF t \in st.in[k] /\ st.made[k][s] /\ ~Hier(s) THEN st.pend[k][s] \cup {t} ELSE st.pend[k][s]]]
SetWeight(t, w) == st' = [st EXCEPT !.w[t] = w, !.pend = Pending(t)]
SetAWeight(t, aw) == Len(aw) = Len(T(t).b) /\ st' = [st EXCEPT !.aw[t] = aw, !.pend = Pending(t)]
SetB(t, b) == Len(b) = Len(T(t).b) /\ st' = [st EXCEPT !.b[t] = b]
SetA(t, k, m) == st' = [st EXCEPT !.A[t][k] = m]
SetX(v, d, x) == Len(x) = cat.dims[v] /\ st' = [st EXCEPT !.val = [j \in 1..NC |-> LET o == d * N + Off(v) IN IF j > o /\ j <= o + Len(x) THEN x[j - o] ELSE @[j]]]
\* the solver answers sol (a value per global column)
SetSol(S, sol) == [j \in 1..NC |-> IF j \in Present(S) THEN sol[j] ELSE st.val[j]]
\* what the scheme cannot handle: inequalities at a priority level other than 0, violations not measured by their square
Cannot(t, s) == (T(t).p > 0 /\ T(t).t # "eq" /\ ~Hier(s)) \/ T(t).ve # 0
Unable(S, s) == \E t \in S : Cannot(t, s)
MustRefuse(k, s) == Unable(st.in[k], s) \/ (st.pend[k][s] # {} /\ cat.schemes[s].damp = 0 /\ ~st.reb[k][s])
MayRefuse(k, s) == MustRefuse(k, s) \/ st.pend[k][s] # {}
\* (reb: the last resolution was refused, what changes until the next one is accepted may go unnoticed)
\* a refused resolution changes nothing, and what was refused does not count any more for the next one
Refused(k, s) == MayRefuse(k, s) /\ st' = [st EXCEPT !.pend[k][s] = {}, !.reb[k][s] = TRUE]
Solve(k, s, sol) == ~MustRefuse(k, s) /\ st' = [st EXCEPT !.val = SetSol(st.in[k], sol), !.made[k][s] = TRUE, !.pend[k][s] = {}, !.reb[k][s] = FALSE]

(* ------------------------------------------ properties of the specification itself *)
\* a bound is never looser than any row it comes from, the objective is a Gram matrix
Sane(S) == LET E == Expected(S, FALSE) IN
  /\ \A c \in 1..NC : E.lo[c] > -INF => c \in Present(S)
  /\ \A j, k \in 1..NC : E.Q[j][k] = E.Q[k][j] /\ (E.Q[j][j] = 0 => E.Q[j][k] = 0) /\ E.Q[j][j] >= 0
  /\ \A c \in (1..NC) \ Present(S) : E.Q[c][c] = 0 /\ E.c[c] = 0 /\ \A r \in E.eqs \cup E.ineqs : r[1][c] = 0
\* adding tasks never removes a requirement from the solver's problem
Monotone(S, t) == LET E == Expected(S, FALSE) F == Expected(S \cup {t}, FALSE) IN
  /\ E.eqs \subseteq F.eqs /\ E.ineqs \subseteq F.ineqs
  /\ \A c \in 1..NC : F.lo[c] >= E.lo[c] /\ F.hi[c] <= E.hi[c] /\ (E.present[c] = 1 => F.present[c] = 1)
=============================================================================
