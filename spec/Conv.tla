-------------------------------- MODULE Conv --------------------------------
(* Assignments of linear constraints to the storage of a solver, whatever the conventions of both.
   A source is a constraint  l <= sum M_k x_k <= u  given with a type (eq, ge, le, ds) and a convention for its right-hand side (zero, as: as
   given, opp: opposite). An assignment gives it rows of a matrix and of vectors under the type and convention of a target, or bounds on the
   components of its only variable. What the rows and bounds written say, read in the conventions of the target, is what the source says,
   multiplied by the weights.                                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NS, NA
VARIABLE cv   \* [src, as, ord (order of the variables in the storage)]
SId == 1..NS
AId == 1..NA
R == 8
C == 6
INF == 1000000
Mark == 7
Unit == 4
(* variables: x (columns 1..2), y (3..5), z (6), and parts of them *)
Vars == <<[c |-> 0, n |-> 2], [c |-> 2, n |-> 3], [c |-> 5, n |-> 1], [c |-> 0, n |-> 1], [c |-> 3, n |-> 2], [c |-> 2, n |-> 2]>>
PId == 1..Len(Vars)
ColsOf(p) == {Vars[p].c + t : t \in 1..Vars[p].n}
Abs(x) == IF x < 0 THEN -x ELSE x
NoSrc == [t |-> ""]
NoAs == [k |-> "no"]
CvSt0 == [src |-> [k \in SId |-> NoSrc], as |-> [a \in AId |-> NoAs]]
---------------------------------------------------------------------------
(* what a source says: rows l <= a x <= u *)
Rows(s) == 1..Len(s.bl[1].M)
Coef(s, i) == [c \in 1..C |-> LET B == {k \in 1..Len(s.bl) : c \in ColsOf(s.bl[k].p)} IN
                IF B = {} THEN 0 ELSE LET k == CHOOSE k \in B : TRUE IN s.bl[k].M[i][c - Vars[s.bl[k].p].c]]
Side(s, v, i) == CASE s.rhs = "zero" -> 0 [] s.rhs = "as" -> v[i] [] s.rhs = "opp" -> -v[i]
Lower(s, i) == IF s.t = "le" THEN -INF ELSE Side(s, s.lo, i)
Upper(s, i) == IF s.t = "ge" THEN INF ELSE Side(s, IF s.t = "ds" THEN s.hi ELSE s.lo, i)
Ordered(s) == \A i \in Rows(s) : Lower(s, i) <= Upper(s, i)
Neg(a) == [c \in DOMAIN a |-> -a[c]]
Times(w, a) == [c \in DOMAIN a |-> w * a[c]]
Lead(a) == IF \E c \in 1..C : a[c] # 0 THEN a[CHOOSE c \in 1..C : a[c] # 0 /\ \A e \in 1..(c - 1) : a[e] = 0] ELSE 0
EqRow(a, b) == IF Lead(a) < 0 \/ (Lead(a) = 0 /\ b < 0) THEN <<"eq", Neg(a), -b>> ELSE <<"eq", a, b>>
GeRow(a, l) == IF l <= -INF \/ l >= INF THEN <<>> ELSE <<<<"ge", a, l>>>>
Count(q) == [x \in {q[k] : k \in 1..Len(q)} |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
Bad == <<<<"never", <<>>, 0>>>>
(* the rows a target of type tt has to hold, each multiplied by the weight of its row *)
Want(s, tt, w) ==
  Count(FlattenSeq([i \in Rows(s) |->
    LET a == Times(w[i], Coef(s, i)) IN
    IF s.t = "eq" /\ tt = "eq" THEN <<EqRow(a, w[i] * Lower(s, i))>>
    ELSE (IF Lower(s, i) > -INF THEN GeRow(a, w[i] * Lower(s, i)) ELSE <<>>) \o (IF Upper(s, i) < INF THEN GeRow(Neg(a), -w[i] * Upper(s, i)) ELSE <<>>)]))
(* the rows n read in a storage m, under the type and convention of a target *)
Given(rhs, v) == CASE rhs = "zero" -> 0 [] rhs = "as" -> v [] rhs = "opp" -> -v
Read(m, t, rhs, at, n) ==
  Count(FlattenSeq([j \in 1..n |->
    LET r == at + j a == m.A[r] b == Given(rhs, m.b[r]) l == Given(rhs, m.l[r]) u == Given(rhs, m.u[r]) IN
    CASE t = "eq" -> <<EqRow(a, b)>>
      [] t = "ge" -> (IF b >= INF THEN Bad ELSE GeRow(a, b))
      [] t = "le" -> (IF b <= -INF THEN Bad ELSE GeRow(Neg(a), -b))
      [] t = "ds" -> (IF l >= INF \/ u <= -INF THEN Bad ELSE GeRow(a, l) \o GeRow(Neg(a), -u))]))
(* bounds implied on column c by source s, on one variable and diagonal, in 1/Unit *)
BLow(s, c) == LET i == c - Vars[s.bl[1].p].c d == s.bl[1].M[i][i] v == IF d > 0 THEN Lower(s, i) ELSE Upper(s, i) IN
              IF v >= INF \/ v <= -INF THEN -INF ELSE (Unit * v) \div d
BUpp(s, c) == LET i == c - Vars[s.bl[1].p].c d == s.bl[1].M[i][i] v == IF d > 0 THEN Upper(s, i) ELSE Lower(s, i) IN
              IF v >= INF \/ v <= -INF THEN INF ELSE (Unit * v) \div d
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
---------------------------------------------------------------------------
Exists(s, a) == s.as[a].k # "no"
Gens(s) == {a \in AId : s.as[a].k = "gen"}
BoundsOf(s, k, t) == {a \in AId : s.as[a].k = k /\ s.as[a].t = t}
Used(s, skip) == UNION {(s.as[a].at + 1)..(s.as[a].at + s.as[a].n) : a \in Gens(s) \ {skip}}
PVar(x) == x.bl[1].p
(* when an assignment is refused *)
GenRefused(x, c) ==
  \/ x.t = "eq" /\ c.t \in {"ge", "le"}
  \/ x.t # "eq" /\ c.t = "eq"
  \/ x.rhs # "zero" /\ c.rhs = "zero"
  \/ c.n # (IF x.t = "ds" /\ c.t # "ds" THEN 2 ELSE 1) * Len(x.bl[1].M)
IsBox(x) == Len(x.bl) = 1 /\ x.bl[1].pr \in {"id", "mid", "diag", "pd", "nd", "mult"}
BndRefused(x, c) ==
  \/ ~IsBox(x)
  \/ c.k = "sbnd" /\ (x.t \in {"eq", "ds"} \/ x.bl[1].pr \notin (IF x.t = c.t THEN {"id", "pd"} ELSE {"mid", "nd"}))
AsRefused(s, c) == IF c.k = "gen" THEN GenRefused(s.src[c.s], c) ELSE BndRefused(s.src[c.s], c)
(* requirements: weights, and whether each is the default one *)
NewAs(s, c) ==
  IF c.k = "gen" THEN [k |-> "gen", s |-> c.s, t |-> c.t, rhs |-> c.rhs, at |-> c.at, n |-> c.n, sc |-> c.sc,
                       no |-> c.no, rw |-> c.w, raw |-> c.aw, w |-> IF c.w = 0 THEN 1 ELSE c.w, aw |-> c.aw, dw |-> IF c.w = 0 /\ c.sc = 1 THEN 1 ELSE 0, daw |-> IF c.aw = <<>> THEN 1 ELSE 0]
  ELSE [k |-> c.k, s |-> c.s, t |-> c.t, rhs |-> "as", at |-> 0, n |-> 0, sc |-> 1, no |-> 1, rw |-> 0, raw |-> <<>>, w |-> 1, aw |-> <<>>, dw |-> 1, daw |-> 1]
Isqrt(x) == CHOOSE k \in 0..40 : k * k = x
Weights(s, a) == LET x == s.as[a] IN [i \in Rows(s.src[x.s]) |-> IF x.k = "gen" THEN x.sc * Isqrt(x.w * (IF x.daw = 1 THEN 1 ELSE x.aw[i])) ELSE 1]
SetWOk(x, w) == x.dw = 0 \/ w = 1
SetAwOk(x, aw) == x.daw = 0 \/ \A t \in 1..Len(aw) : aw[t] = 1
CvEnabled(s, c) ==
  CASE c.op = "src" -> Ordered(c.x) /\ \A a \in AId : Exists(s, a) => s.as[a].s # c.k
    [] c.op = "as" -> /\ s.src[c.s] # NoSrc /\ ~Exists(s, c.a)
                      /\ IF c.k = "gen" THEN c.at + c.n <= R /\ (c.at + 1)..(c.at + c.n) \cap Used(s, 0) = {} /\ (c.no = 1 => c.w = 0 /\ c.aw = <<>> /\ c.sc = 1)
                         ELSE \A a \in BoundsOf(s, c.k, c.t) : LET p == PVar(s.src[c.s]) q == PVar(s.src[s.as[a].s]) IN p = q \/ ColsOf(p) \cap ColsOf(q) = {}
    [] c.op = "A" -> s.src[c.k] # NoSrc
    [] c.op = "v" -> s.src[c.k] # NoSrc /\ s.src[c.k].rhs # "zero" /\ Ordered([s.src[c.k] EXCEPT !.lo = c.lo, !.hi = c.hi])
    [] c.op = "w" -> Exists(s, c.a) /\ s.as[c.a].k = "gen" /\ s.as[c.a].no = 0
    [] c.op = "aw" -> Exists(s, c.a) /\ s.as[c.a].k = "gen" /\ s.as[c.a].no = 0 /\ Len(c.v) = Len(s.src[s.as[c.a].s].bl[1].M)
    [] c.op = "at" -> Exists(s, c.a) /\ s.as[c.a].k = "gen" /\ c.at + s.as[c.a].n <= R /\ (c.at + 1)..(c.at + s.as[c.a].n) \cap Used(s, c.a) = {}
    [] c.op = "rep" -> Exists(s, c.a)
    [] c.op = "ask" -> Exists(s, c.a)
    [] OTHER -> TRUE
Refused(s, c) == CASE c.op = "as" -> AsRefused(s, c)
                   [] c.op = "w" -> ~SetWOk(s.as[c.a], c.v)
                   [] c.op = "aw" -> ~SetAwOk(s.as[c.a], c.v)
                   [] OTHER -> FALSE
CvApply(s, c) ==
  CASE c.op = "src" -> [s EXCEPT !.src[c.k] = c.x]
    [] c.op = "as" -> IF AsRefused(s, c) THEN s ELSE [s EXCEPT !.as[c.a] = NewAs(s, c)]
    [] c.op = "A" -> [s EXCEPT !.src[c.k].bl[c.j].M = c.M]
    [] c.op = "v" -> [s EXCEPT !.src[c.k].lo = c.lo, !.src[c.k].hi = c.hi]
    \* a change of weight that is refused is there for the assignments made again
    [] c.op = "w" -> IF Refused(s, c) THEN [s EXCEPT !.as[c.a].rw = c.v] ELSE [s EXCEPT !.as[c.a].rw = c.v, !.as[c.a].w = c.v]
    [] c.op = "aw" -> IF s.as[c.a].daw = 1 THEN [s EXCEPT !.as[c.a].raw = c.v] ELSE [s EXCEPT !.as[c.a].raw = c.v, !.as[c.a].aw = c.v]
    [] c.op = "at" -> [s EXCEPT !.as[c.a].at = c.at]
    [] c.op = "rep" -> LET x == s.as[c.a] IN IF x.k # "gen" THEN s
         ELSE [s EXCEPT !.as[c.a].w = IF x.rw = 0 THEN 1 ELSE x.rw, !.as[c.a].aw = x.raw, !.as[c.a].dw = IF x.rw = 0 /\ x.sc = 1 THEN 1 ELSE 0, !.as[c.a].daw = IF x.raw = <<>> THEN 1 ELSE 0]
    [] OTHER -> s   \* run, ask, map (another order of the variables), mem (another storage)
CvAnswer(s, c) == IF Refused(s, c) THEN [exc |-> 1]
                  ELSE IF c.op = "ask" THEN [sw |-> 1 - s.as[c.a].dw, vw |-> 1 - s.as[c.a].daw] ELSE [ok |-> 1]
---------------------------------------------------------------------------
(* what the storage m holds after every assignment was run on a storage with a null matrix and vectors of Mark *)
RowsRight(s, m) == \A a \in Gens(s) : LET x == s.as[a] IN Read(m, x.t, x.rhs, x.at, x.n) = Want(s.src[x.s], x.t, Weights(s, a))
RowsElse(s, m) ==
  LET by(ts) == UNION {(s.as[a].at + 1)..(s.as[a].at + s.as[a].n) : a \in {a \in Gens(s) : s.as[a].t \in ts /\ s.as[a].rhs # "zero"}} IN
  /\ \A r \in (1..R) \ Used(s, 0) : \A c \in 1..C : m.A[r][c] = 0
  /\ \A r \in (1..R) \ by({"eq", "ge", "le"}) : m.b[r] = Mark
  /\ \A r \in (1..R) \ by({"ds"}) : m.l[r] = Mark /\ m.u[r] = Mark
On(s, k, t, c) == {a \in BoundsOf(s, k, t) : c \in ColsOf(PVar(s.src[s.as[a].s]))}
Cut(v) == IF v >= INF THEN INF ELSE IF v <= -INF THEN -INF ELSE v
RECURSIVE MaxLow(_, _, _)
MaxLow(s, A, c) == IF A = {} THEN -INF ELSE LET a == CHOOSE a \in A : TRUE IN Max2(BLow(s.src[s.as[a].s], c), MaxLow(s, A \ {a}, c))
RECURSIVE MinUpp(_, _, _)
MinUpp(s, A, c) == IF A = {} THEN INF ELSE LET a == CHOOSE a \in A : TRUE IN Min2(BUpp(s.src[s.as[a].s], c), MinUpp(s, A \ {a}, c))
BoundsRight(s, m) == \A c \in 1..C :
  /\ LET A == On(s, "bnd", "ds", c) IN IF A = {} THEN m.xl[c] = Unit * Mark /\ m.xu[c] = Unit * Mark ELSE Cut(m.xl[c]) = MaxLow(s, A, c) /\ Cut(m.xu[c]) = MinUpp(s, A, c)
  /\ LET A == On(s, "sbnd", "ge", c) IN IF A = {} THEN m.sl[c] = Unit * Mark ELSE Cut(m.sl[c]) = MaxLow(s, A, c)
  /\ LET A == On(s, "sbnd", "le", c) IN IF A = {} THEN m.su[c] = Unit * Mark ELSE Cut(m.su[c]) = MinUpp(s, A, c)
---------------------------------------------------------------------------
(* the rows wanted have the solutions of the source *)
RECURSIVE DotP(_, _, _)
DotP(a, x, n) == IF n = 0 THEN 0 ELSE a[n] * x[n] + DotP(a, x, n - 1)
Points == {<<0, 0, 0, 0, 0, 0>>, <<1, 0, -1, 2, 0, 1>>, <<-2, 1, 1, 0, -1, -1>>, <<1, 1, 1, 1, 1, 1>>, <<0, -3, 2, -1, 2, 0>>}
Sat(s, x) == \A i \in Rows(s) : LET v == DotP(Coef(s, i), x, C) IN Lower(s, i) <= v /\ v <= Upper(s, i)
SatRows(Q, x) == \A q \in Q : LET v == DotP(q[2], x, C) IN IF q[1] = "eq" THEN v = q[3] ELSE v >= q[3]
Faithful == \A k \in SId : cv.src[k] # NoSrc => \A x \in Points : \A tt \in {"eq", "ge"} :
   Sat(cv.src[k], x) = SatRows(DOMAIN Want(cv.src[k], tt, [i \in Rows(cv.src[k]) |-> 2]), x)
FaithfulBounds == \A k \in SId : (cv.src[k] # NoSrc /\ IsBox(cv.src[k])) => \A x \in Points :
   Sat(cv.src[k], x) = \A c \in ColsOf(PVar(cv.src[k])) : BLow(cv.src[k], c) <= Unit * x[c] /\ Unit * x[c] <= BUpp(cv.src[k], c)
=============================================================================
