------------------------------- MODULE LinFun -------------------------------
(* Linear functions  sum A_i x_i + b  of variables that can be parts of others: value, velocity, jacobians, for the current matrices,
   and evaluation without explicit updates.                                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NF
VARIABLE lf   \* [v |-> values of all components, f |-> functions]
FId == 1..NF
(* variables: part [st + 1 .. st + n] of the derivative of order k of base b. Base 4 is a rotation: only its derivatives are vectors. *)
Cat == <<[b |-> 1, st |-> 0, n |-> 2, k |-> 0], [b |-> 2, st |-> 0, n |-> 3, k |-> 0], [b |-> 3, st |-> 0, n |-> 4, k |-> 0],
         [b |-> 3, st |-> 0, n |-> 2, k |-> 0], [b |-> 3, st |-> 1, n |-> 2, k |-> 0], [b |-> 3, st |-> 2, n |-> 2, k |-> 0], [b |-> 3, st |-> 0, n |-> 3, k |-> 0],
         [b |-> 2, st |-> 1, n |-> 2, k |-> 0], [b |-> 2, st |-> 0, n |-> 1, k |-> 0],
         [b |-> 1, st |-> 0, n |-> 2, k |-> 1], [b |-> 3, st |-> 1, n |-> 2, k |-> 1], [b |-> 4, st |-> 0, n |-> 3, k |-> 1], [b |-> 4, st |-> 0, n |-> 4, k |-> 0],
         [b |-> 4, st |-> 1, n |-> 2, k |-> 1], [b |-> 1, st |-> 1, n |-> 1, k |-> 0], [b |-> 3, st |-> 0, n |-> 2, k |-> 1]>>
VId == 1..Len(Cat)
Rotation == 13
Size == <<2, 3, 4, 3>>
Same(p, q) == Cat[p].b = Cat[q].b /\ Cat[p].k = Cat[q].k
Within(p, q) == Same(p, q) /\ Cat[q].st <= Cat[p].st /\ Cat[p].st + Cat[p].n <= Cat[q].st + Cat[q].n
Touch(p, q) == Same(p, q) /\ Cat[p].st < Cat[q].st + Cat[q].n /\ Cat[q].st < Cat[p].st + Cat[p].n
(* the values: lf.v[base][order + 1][component] *)
Val(s, p) == [t \in 1..Cat[p].n |-> s.v[Cat[p].b][Cat[p].k + 1][Cat[p].st + t]]
Vel(s, p) == [t \in 1..Cat[p].n |-> s.v[Cat[p].b][Cat[p].k + 2][Cat[p].st + t]]
RECURSIVE Dot(_, _, _)
Dot(f, g, n) == IF n = 0 THEN 0 ELSE f[n] * g[n] + Dot(f, g, n - 1)
----------------------------------------------------------------------------
(* a function: [m, vs (its variables), A (a matrix for each), b, defA, defb, id, gr (what its graph updates)] *)
NoFun == [m |-> 0]
Has(s, f) == s.f[f].m > 0
Ix(vs, p) == {t \in 1..Len(vs) : Within(p, vs[t])}
(* addition of a term: merged in the variable containing it, refused if it only meets one *)
RECURSIVE Terms(_, _, _, _, _)
Terms(m, vs, mats, xs, As) ==
  IF xs = <<>> THEN [ok |-> TRUE, vs |-> vs, A |-> mats]
  ELSE LET p == Head(xs) a == Head(As) IN
    IF p = Rotation \/ Len(a) # m \/ Len(a[1]) # Cat[p].n THEN [ok |-> FALSE]
    ELSE IF Ix(vs, p) # {}
      THEN LET t == CHOOSE t \in Ix(vs, p) : TRUE o == Cat[p].st - Cat[vs[t]].st IN
           Terms(m, vs, [mats EXCEPT ![t] = [r \in 1..m |-> [c \in 1..Cat[vs[t]].n |-> @[r][c] + IF c > o /\ c <= o + Cat[p].n THEN a[r][c - o] ELSE 0]]], Tail(xs), Tail(As))
      ELSE IF \E t \in 1..Len(vs) : Touch(p, vs[t]) THEN [ok |-> FALSE]
      ELSE Terms(m, Append(vs, p), Append(mats, a), Tail(xs), Tail(As))
(* without matrices, there is no term to merge: a part of a variable already there is refused *)
RECURSIVE Vars(_, _)
Vars(vs, xs) == IF xs = <<>> THEN [ok |-> TRUE, vs |-> vs]
                ELSE IF \E t \in 1..Len(vs) : Head(xs) = vs[t] THEN Vars(vs, Tail(xs))
                ELSE IF \E t \in 1..Len(vs) : Touch(Head(xs), vs[t]) THEN [ok |-> FALSE]
                ELSE Vars(Append(vs, Head(xs)), Tail(xs))
ZeroM(m, n) == [r \in 1..m |-> [c \in 1..n |-> 0]]
Made(c) ==
  CASE c.how = "id" -> IF c.xs[1] = Rotation THEN [ok |-> FALSE]
                       ELSE LET n == Cat[c.xs[1]].n IN
                            [ok |-> TRUE, f |-> [m |-> n, vs |-> c.xs, A |-> <<[r \in 1..n |-> [t \in 1..n |-> IF r = t THEN 1 ELSE 0]]>>, b |-> [r \in 1..n |-> 0], da |-> <<1>>, db |-> 1, id |-> 1, gr |-> c.gr]]
    [] c.how = "new" -> LET w == Vars(<<>>, c.xs) IN
                        IF ~w.ok THEN [ok |-> FALSE]
                        ELSE [ok |-> TRUE, f |-> [m |-> c.m, vs |-> w.vs, A |-> [t \in 1..Len(w.vs) |-> ZeroM(c.m, Cat[w.vs[t]].n)], b |-> [r \in 1..c.m |-> 0], da |-> [t \in 1..Len(w.vs) |-> 0], db |-> 0, id |-> 0, gr |-> c.gr]]
    [] c.how \in {"A", "Ab"} ->
       LET m == Len(c.As[1]) w == IF Len(c.xs) # Len(c.As) THEN [ok |-> FALSE] ELSE Terms(m, <<>>, <<>>, c.xs, c.As) IN
       IF ~w.ok \/ (c.how = "Ab" /\ Len(c.b) # m) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, f |-> [m |-> m, vs |-> w.vs, A |-> w.A, b |-> IF c.how = "Ab" THEN c.b ELSE [r \in 1..m |-> 0], da |-> [t \in 1..Len(w.vs) |-> 1], db |-> 1, id |-> 0, gr |-> c.gr]]
Defined(f) == f.db = 1 /\ \A t \in 1..Len(f.da) : f.da[t] = 1
RECURSIVE Acc(_, _, _)
Acc(f, g, r) == IF g = <<>> THEN 0 ELSE Acc(f, SubSeq(g, 1, Len(g) - 1), r) + Dot(f.A[Len(g)][r], g[Len(g)], Len(g[Len(g)]))
Value(s, f) == [r \in 1..f.m |-> f.b[r] + Acc(f, [t \in 1..Len(f.vs) |-> Val(s, f.vs[t])], r)]
Velocity(s, f) == [r \in 1..f.m |-> Acc(f, [t \in 1..Len(f.vs) |-> Vel(s, f.vs[t])], r)]
Rng(q) == {q[t] : t \in 1..Len(q)}
(* jacobian with respect to a part of one of the variables *)
JacOf(f, p) == LET t == CHOOSE t \in Ix(f.vs, p) : TRUE o == Cat[p].st - Cat[f.vs[t]].st IN [r \in 1..f.m |-> [c \in 1..Cat[p].n |-> f.A[t][r][o + c]]]
(* assignment of values and of velocities *)
Put(s, p, d, x) == [s EXCEPT !.v[Cat[p].b][Cat[p].k + 1 + d] = [t \in DOMAIN @ |-> IF t > Cat[p].st /\ t <= Cat[p].st + Cat[p].n THEN x[t - Cat[p].st] ELSE @[t]]]
RECURSIVE PutAll(_, _, _, _)
PutAll(s, ps, d, xs) == IF ps = <<>> THEN s ELSE PutAll(Put(s, Head(ps), d, Head(xs)), Tail(ps), d, Tail(xs))
(* evaluation without updates: values (and velocities) given for the variables, in order, or for some, by name *)
UlNames(s, c) == IF c.form = "by" THEN c.ps ELSE s.f[c.f].vs
UlOk(s, c) ==
  CASE c.form = "by" -> c.ps[1] \in Rng(s.f[c.f].vs)
    [] OTHER -> c.bad = 0
RECURSIVE PutBoth(_, _, _, _)
PutBoth(s, ps, xs, ds) == IF ps = <<>> THEN s ELSE PutBoth(Put(Put(s, Head(ps), 0, Head(xs)), Head(ps), 1, Head(ds)), Tail(ps), Tail(xs), Tail(ds))
UlSet(s, c) == IF c.what \in {"vel", "nacc"} THEN PutBoth(s, UlNames(s, c), c.xs, c.ds) ELSE PutAll(s, UlNames(s, c), 0, c.xs)
UlGet(s, c) == LET f == s.f[c.f] IN CASE c.what = "value" -> Value(s, f) [] c.what = "vel" -> Velocity(s, f) [] c.what = "nacc" -> [r \in 1..f.m |-> 0]
                                      [] c.what = "jac" -> JacOf(f, c.p)
----------------------------------------------------------------------------
FS0 == [v |-> [b \in 1..4 |-> [k \in 1..3 |-> [t \in 1..Size[b] |-> 0]]], f |-> [f \in FId |-> NoFun]]
LfEnabled(s, c) ==
  CASE c.op = "make" -> TRUE
    [] c.op = "val" -> ~(c.b = 4 /\ c.k = 0)
    [] c.op = "A" -> Has(s, c.f) /\ (c.p \in Rng(s.f[c.f].vs) \/ Ix(s.f[c.f].vs, c.p) = {})
    [] c.op = "A1" -> Has(s, c.f)
    [] c.op = "b" -> Has(s, c.f)
    [] c.op = "run" -> Has(s, c.f)
    [] c.op = "jac" -> Has(s, c.f) /\ (Ix(s.f[c.f].vs, c.p) # {} => \A t \in Ix(s.f[c.f].vs, c.p) : s.f[c.f].da[t] = 1)
    [] c.op = "lin" -> Has(s, c.f)
    [] c.op = "ul" -> Has(s, c.f) /\ Defined(s.f[c.f]) /\ (c.what = "jac" => Ix(s.f[c.f].vs, c.p) # {})
                      /\ (\A p \in Rng(UlNames(s, c)) : Cat[p].k + 2 <= 3)
                      /\ CASE c.form = "by" -> \A t \in 2..Len(c.ps) : c.ps[t] \in Rng(s.f[c.f].vs)
                           [] OTHER -> Len(c.xs) = Len(s.f[c.f].vs) /\ Len(c.ds) = Len(c.xs) /\ \A t \in 1..Len(c.xs) : Len(c.xs[t]) = Cat[s.f[c.f].vs[t]].n /\ Len(c.ds[t]) = Len(c.xs[t])
Refused(s, c) ==
  CASE c.op = "make" -> ~Made(c).ok
    [] c.op = "A" -> LET f == s.f[c.f] IN f.id = 1 \/ c.p \notin Rng(f.vs) \/ Len(c.A) # f.m \/ Len(c.A[1]) # Cat[c.p].n
    [] c.op = "A1" -> LET f == s.f[c.f] IN f.id = 1 \/ Len(f.vs) # 1 \/ Len(c.A) # f.m \/ Len(c.A[1]) # Cat[f.vs[1]].n
    [] c.op = "b" -> s.f[c.f].id = 1 \/ Len(c.v) # s.f[c.f].m
    [] c.op \in {"jac", "lin"} -> Ix(s.f[c.f].vs, c.p) = {}
    [] c.op = "ul" -> ~UlOk(s, c)
    [] OTHER -> FALSE
LfApply(s, c) ==
  IF Refused(s, c) THEN s
  ELSE CASE c.op = "make" -> [s EXCEPT !.f[c.f] = Made(c).f]
    [] c.op = "val" -> [s EXCEPT !.v[c.b][c.k + 1] = c.v]
    [] c.op \in {"A", "A1"} -> LET t == IF c.op = "A1" THEN 1 ELSE CHOOSE t \in 1..Len(s.f[c.f].vs) : s.f[c.f].vs[t] = c.p IN [s EXCEPT !.f[c.f].A[t] = c.A, !.f[c.f].da[t] = 1]
    [] c.op = "b" -> [s EXCEPT !.f[c.f].b = c.v, !.f[c.f].db = 1]
    [] c.op = "ul" -> UlSet(s, c)
    [] OTHER -> s
(* what a function shows once its graph was run *)
Seen(s, f) ==
  LET g == s.f[f] d == Defined(g) IN
  [vs |-> Rng(g.vs), sz |-> g.m, val |-> IF d /\ g.gr \in {1, 3} THEN Value(s, g) ELSE <<>>, vel |-> IF d /\ g.gr \in {2, 3} THEN Velocity(s, g) ELSE <<>>,
   b |-> IF g.db = 1 THEN g.b ELSE <<>>, J |-> IF d THEN g.A ELSE <<>>, zero |-> 1]
LfAnswer(s, c) ==
  IF Refused(s, c) THEN [exc |-> 1]
  ELSE CASE c.op = "run" -> Seen(s, c.f)
    [] c.op = "jac" -> [J |-> JacOf(s.f[c.f], c.p)]
    [] c.op = "lin" -> [ok |-> 1]
    [] c.op = "ul" -> LET a == UlSet(s, c) IN [u |-> UlGet(a, c)]
    [] OTHER -> [ok |-> 1]
(* properties of the specification *)
Funs == {f \in FId : Has(lf, f)}
Disjoint == \A f \in Funs : \A t, u \in 1..Len(lf.f[f].vs) : t # u => ~Touch(lf.f[f].vs[t], lf.f[f].vs[u])
Shapes == \A f \in Funs : LET g == lf.f[f] IN Len(g.b) = g.m /\ \A t \in 1..Len(g.vs) : Len(g.A[t]) = g.m /\ \A r \in 1..g.m : Len(g.A[t][r]) = Cat[g.vs[t]].n
=============================================================================
