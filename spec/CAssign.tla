------------------------------ MODULE CAssign ------------------------------
(* Compiled assignments t = op(t, w * M * f): each wrapper refers to a view of a target buffer, of a source buffer
   (or holds a constant), to a weight and to a multiplier, and applies the contents they have when it is run.
   Buffers are 4 x 4 integer matrices (columns of them for the vectors); what multiplies by the inverse of a diagonal
   is recorded as this inverse. Views are <<buffer, row, column, number of rows, number of columns>>.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NW         \* number of wrappers
W == 1..NW
VARIABLE ca          \* [t |-> targets, s |-> sources, m |-> multipliers, d |-> inverse diagonals, ws |-> scalar weights, wd |-> diagonal weights, w |-> wrappers]
AssignTypes == {"copy", "add", "sub", "min", "max"}
WeightMults == {"none", "minus", "scalar", "diag"}
MatrixMults == {"id", "gen", "inv"}
Sources == {"ext", "zero", "cst"}
Unset == [ty |-> "u"]
Buf(f(_, _)) == [r \in 1..4 |-> [c \in 1..4 |-> f(r, c)]]
Zero4 == [r \in 1..4 |-> [c \in 1..4 |-> 0]]
One4 == [r \in 1..4 |-> [c \in 1..4 |-> 1]]
CSt0 == [t |-> <<Zero4, Zero4>>, s |-> <<Zero4, Zero4>>, m |-> <<Zero4, Zero4>>, d |-> <<<<1, 1, 1, 1>>, <<1, 1, 1, 1>>>>, ws |-> <<0, 0>>, wd |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>,
         w |-> [k \in W |-> Unset]]
Exists(s, k) == s.w[k].ty # "u"
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
(* entry (r, c) of a view *)
At(b, v, r, c) == b[v[1]][v[2] + r][v[3] + c]
RECURSIVE Dot(_, _, _)
Dot(f, g, n) == IF n = 0 THEN 0 ELSE f[n] * g[n] + Dot(f, g, n - 1)
(* sizes: of the source for a wrapper, and whether everything fits *)
Fits(x) ==
  LET n == x.to[4] c == x.to[5] IN
  IF x.F = "zero" THEN TRUE
  ELSE
     /\ x.W = "diag" => x.wt[2] + n <= 4 /\ x.wt[3] = n
     /\ x.M = "inv" => x.mu[3] = (IF x.ty = "v" THEN n ELSE c)
     /\ IF x.ty = "v"
        THEN /\ x.M = "gen" => x.mu[4] = n
             /\ x.F = "ext" => x.fr[5] = 1 /\ x.fr[4] = (IF x.M = "gen" THEN x.mu[5] ELSE n)
        ELSE /\ x.M = "gen" => x.mu[5] = c
             /\ x.fr[4] = n /\ x.fr[5] = (IF x.M = "gen" THEN x.mu[4] ELSE c)
(* w * M * f *)
Src(s, x, r, c) == IF x.F = "cst" THEN x.fr ELSE At(s.s, x.fr, r, c)
Mult(s, x, r, c) ==
  CASE x.M = "id" -> Src(s, x, r, c)
    [] x.M = "inv" -> (IF x.ty = "v" THEN s.d[x.mu[1]][x.mu[2] + r] ELSE s.d[x.mu[1]][x.mu[2] + c]) * Src(s, x, r, c)
    [] x.M = "gen" -> IF x.ty = "v" THEN Dot([k \in 1..x.mu[5] |-> At(s.m, x.mu, r, k)], [k \in 1..x.mu[5] |-> Src(s, x, k, 1)], x.mu[5])
                      ELSE Dot([k \in 1..x.mu[4] |-> Src(s, x, r, k)], [k \in 1..x.mu[4] |-> At(s.m, x.mu, k, c)], x.mu[4])
Term(s, x, r, c) ==
  IF x.F = "zero" THEN 0
  ELSE LET y == Mult(s, x, r, c) IN
       CASE x.W = "none" -> y [] x.W = "minus" -> -y [] x.W = "scalar" -> s.ws[x.wt] * y [] x.W = "diag" -> s.wd[x.wt[1]][x.wt[2] + r] * y
Op(A, a, b) == CASE A = "copy" -> b [] A = "add" -> a + b [] A = "sub" -> a - b [] A = "min" -> Min(a, b) [] A = "max" -> Max(a, b)
Run(s, k) ==
  LET x == s.w[k] v == x.to IN
  [s EXCEPT !.t[v[1]] = [r \in 1..4 |-> [c \in 1..4 |->
     IF v[2] < r /\ r <= v[2] + v[4] /\ v[3] < c /\ c <= v[3] + v[5] THEN Op(x.A, s.t[v[1]][r][c], Term(s, x, r - v[2], c - v[3])) ELSE s.t[v[1]][r][c]]]]
InView(v) == v[2] >= 0 /\ v[4] >= 0 /\ v[2] + v[4] <= 4 /\ v[3] >= 0 /\ v[5] >= 0 /\ v[3] + v[5] <= 4
Legal(x) == InView(x.to) /\ (x.F = "ext" => InView(x.fr)) /\ (x.ty = "v" => x.to[5] = 1 /\ (x.F = "ext" => x.fr[5] = 1)) /\ (x.ty = "m" => x.F # "cst")
            /\ (x.M = "gen" /\ x.F # "zero" => InView(x.mu)) /\ (x.M = "inv" /\ x.F # "zero" => x.mu[2] + x.mu[3] <= 4)
CEnabled(s, c) ==
  CASE c.op = "make" -> Legal(c.x) /\ Fits(c.x)
    [] c.op = "run" -> Exists(s, c.k) /\ Fits(s.w[c.k])
    [] c.op = "to" -> Exists(s, c.k) /\ Legal([s.w[c.k] EXCEPT !.to = c.v])
    [] c.op = "from" -> Exists(s, c.k) /\ InView(c.v) /\ (s.w[c.k].ty = "v" => c.v[5] = 1)
    [] c.op = "fromc" -> Exists(s, c.k)
    [] c.op \in {"copy", "move"} -> Exists(s, c.j) /\ c.j # c.k
    [] OTHER -> TRUE
(* a copy refers to what the original refers to *)
CApply(s, c) ==
  CASE c.op = "make" -> [s EXCEPT !.w[c.k] = c.x]
    [] c.op = "run" -> Run(s, c.k)
    [] c.op = "to" -> [s EXCEPT !.w[c.k].to = c.v]
    [] c.op = "from" -> IF s.w[c.k].F = "ext" THEN [s EXCEPT !.w[c.k].fr = c.v] ELSE s
    [] c.op = "fromc" -> IF s.w[c.k].F = "cst" THEN [s EXCEPT !.w[c.k].fr = c.v] ELSE s
    [] c.op = "copy" -> [s EXCEPT !.w[c.k] = s.w[c.j]]
    [] c.op = "move" -> [s EXCEPT !.w[c.k] = s.w[c.j], !.w[c.j] = Unset]
    [] c.op = "drop" -> [s EXCEPT !.w[c.k] = Unset]
    [] c.op = "st" -> [s EXCEPT !.t[c.b] = c.v]
    [] c.op = "ss" -> [s EXCEPT !.s[c.b] = c.v]
    [] c.op = "sm" -> [s EXCEPT !.m[c.b] = c.v]
    [] c.op = "sd" -> [s EXCEPT !.d[c.b] = c.v]
    [] c.op = "sw" -> [s EXCEPT !.ws[c.b] = c.v]
    [] c.op = "sv" -> [s EXCEPT !.wd[c.b] = c.v]
(* a source of the wrong nature is refused *)
CAnswer(s, c) == IF (c.op = "from" /\ s.w[c.k].F = "cst") \/ (c.op = "fromc" /\ s.w[c.k].F # "cst") THEN [exc |-> 1] ELSE [ok |-> 1]
(* laws of the specification *)
Idem == \A k \in W : Exists(ca, k) /\ Fits(ca.w[k]) /\ ca.w[k].A \in {"copy", "min", "max"} => Run(Run(ca, k), k) = Run(ca, k)
Undo == \A k \in W : Exists(ca, k) /\ Fits(ca.w[k]) /\ ca.w[k].A = "add" =>
          LET r == Run(ca, k) IN Run([r EXCEPT !.w[k].A = "sub"], k) = [ca EXCEPT !.w[k].A = "sub"]
Order == \A k \in W : Exists(ca, k) /\ Fits(ca.w[k]) /\ ca.w[k].A \in {"min", "max"} =>
          \A b \in 1..2, r, c \in 1..4 : LET x == ca.t[b][r][c] y == Run(ca, k).t[b][r][c] IN IF ca.w[k].A = "min" THEN y <= x ELSE y >= x
=============================================================================
