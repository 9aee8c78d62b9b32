------------------------------- MODULE Affine -------------------------------
(* Affine expressions of variables, as they are written with the operators, and what they denote: a matrix with one column per scalar
   component of the variables, and a constant. Relations give tasks: a type, and bounds on the linear part.
   Expressions are trees: k is the kind of a node (see Den, MatOf and VecOf).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE af   \* [v |-> value of each component, d |-> what the last expression denotes, or nothing]
(* the scalar components of each variable: x 1..2, y 3..5, w 6..9, dot(x) 10..11, dot(y)  12..14 *)
NC == 14
Comps == <<<<1, 2>>, <<3, 4, 5>>, <<6, 7, 8, 9>>, <<6, 7>>, <<7, 8>>, <<8, 9>>, <<6, 7, 8>>, <<4, 5>>, <<3>>, <<10, 11>>, <<8>>, <<2>>, <<12, 13, 14>>, <<13, 14>>, <<7, 8, 9>>>>
PIds == 1..Len(Comps)
Width(p) == Len(Comps[p])
RECURSIVE Sum(_, _, _)
Sum(f, g, n) == IF n = 0 THEN 0 ELSE f[n] * g[n] + Sum(f, g, n - 1)
Rows(M) == Len(M)
Cols(M) == Len(M[1])
MMul(M, N) == [r \in 1..Rows(M) |-> [c \in 1..Cols(N) |-> Sum(M[r], [t \in 1..Rows(N) |-> N[t][c]], Rows(N))]]
MVec(M, w) == [r \in 1..Rows(M) |-> Sum(M[r], w, Len(w))]
MAdd(M, N) == [r \in 1..Rows(M) |-> [c \in 1..Cols(M) |-> M[r][c] + N[r][c]]]
MScale(s, M) == [r \in 1..Rows(M) |-> [c \in 1..Cols(M) |-> s * M[r][c]]]
Eye(m, n) == [r \in 1..m |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]
VAdd(v, w) == [r \in 1..Len(v) |-> v[r] + w[r]]
VScale(s, v) == [r \in 1..Len(v) |-> s * v[r]]
(* matrix expressions *)
RECURSIVE MatOf(_)
MatOf(e) ==
  CASE e.k = "m" -> e.v
    [] e.k = "mi" -> Eye(e.r, e.c)
    [] e.k = "mm" -> MMul(MatOf(e.l), MatOf(e.o))
    [] e.k = "ma" -> MAdd(MatOf(e.l), MatOf(e.o))
    [] e.k = "mb" -> MAdd(MatOf(e.l), MScale(-1, MatOf(e.o)))
    [] e.k = "mt" -> LET N == MatOf(e.e) IN [r \in 1..Cols(N) |-> [c \in 1..Rows(N) |-> N[c][r]]]
    [] e.k = "ms" -> MScale(e.s, MatOf(e.e))
    [] e.k = "mn" -> MScale(-1, MatOf(e.e))
    [] e.k = "md" -> LET N == MatOf(e.e) IN [r \in 1..Rows(N) |-> [c \in 1..Cols(N) |-> e.v[r] * N[r][c]]]
RECURSIVE VecOf(_)
VecOf(e) ==
  CASE e.k = "v" -> e.v
    [] e.k = "vc" -> [r \in 1..e.n |-> e.s]
    [] e.k = "va" -> VAdd(VecOf(e.l), VecOf(e.o))
    [] e.k = "vb" -> VAdd(VecOf(e.l), VScale(-1, VecOf(e.o)))
    [] e.k = "vs" -> VScale(e.s, VecOf(e.e))
    [] e.k = "vn" -> VScale(-1, VecOf(e.e))
    [] e.k = "vp" -> MVec(MatOf(e.l), VecOf(e.o))
(* expressions: [m, A (the columns), b] *)
Cst(m) == [r \in 1..m |-> 0]
Pos(p, c) == CHOOSE t \in 1..Width(p) : Comps[p][t] = c
DMap(F(_), d) == [m |-> Len(F(d.b)), A |-> [c \in 1..NC |-> F(d.A[c])], b |-> F(d.b)]
DAdd(d, g) == [m |-> d.m, A |-> [c \in 1..NC |-> VAdd(d.A[c], g.A[c])], b |-> VAdd(d.b, g.b)]
RECURSIVE Den(_)
Den(e) ==
  CASE e.k = "x" -> [m |-> Width(e.p), A |-> [c \in 1..NC |-> [r \in 1..Width(e.p) |-> IF Comps[e.p][r] = c THEN 1 ELSE 0]], b |-> Cst(Width(e.p))]
    [] e.k = "neg" -> DMap(LAMBDA v : VScale(-1, v), Den(e.e))
    [] e.k = "scl" -> DMap(LAMBDA v : VScale(e.s, v), Den(e.e))
    [] e.k = "mul" -> LET M == MatOf(e.l) IN DMap(LAMBDA v : MVec(M, v), Den(e.e))
    [] e.k = "add" -> DAdd(Den(e.l), Den(e.o))
    [] e.k = "sub" -> DAdd(Den(e.l), DMap(LAMBDA v : VScale(-1, v), Den(e.o)))
    [] e.k \in {"addv", "vadd"} -> LET d == Den(e.e) IN [d EXCEPT !.b = VAdd(@, VecOf(e.v))]
    [] e.k = "subv" -> LET d == Den(e.e) IN [d EXCEPT !.b = VAdd(@, VScale(-1, VecOf(e.v)))]
    [] e.k = "vsub" -> LET d == DMap(LAMBDA v : VScale(-1, v), Den(e.e)) IN [d EXCEPT !.b = VAdd(@, VecOf(e.v))]
    [] e.k = "let" -> Den(e.e)
(* the variables that are mentioned *)
RECURSIVE Used(_)
Used(e) == CASE e.k = "x" -> {e.p} [] e.k \in {"add", "sub"} -> Used(e.l) \cup Used(e.o) [] OTHER -> Used(e.e)
(* relations: n is the name of the operator, r (and q) the right-hand sides: [k |-> "num", s] or a vector *)
Rhs(r, m) == IF r.k = "num" THEN [t \in 1..m |-> r.s] ELSE VecOf(r)
Type(n) == CASE n = "fn" -> 0 [] n \in {"eq", "eqr"} -> 1 [] n \in {"ge", "ler"} -> 2 [] n \in {"le", "ger"} -> 3 [] OTHER -> 4
BadRhs(c, d) == \/ c.n # "fn" /\ c.r.k # "num" /\ Len(VecOf(c.r)) # d.m
                \/ Type(c.n) = 4 /\ c.q.k # "num" /\ Len(VecOf(c.q)) # d.m
Minus(v, w) == VAdd(v, VScale(-1, w))
Low(c, d) == CASE Type(c.n) = 2 -> Rhs(c.r, d.m) [] Type(c.n) = 4 -> IF c.n \in {"lmu"} THEN Rhs(c.r, d.m) ELSE Rhs(c.q, d.m) [] OTHER -> <<>>
Upp(c, d) == CASE Type(c.n) = 3 -> Rhs(c.r, d.m) [] Type(c.n) = 4 -> IF c.n \in {"lmu"} THEN Rhs(c.q, d.m) ELSE Rhs(c.r, d.m) [] OTHER -> <<>>
Eq(c, d) == IF Type(c.n) = 1 THEN Rhs(c.r, d.m) ELSE <<>>
Shift(v, b) == IF v = <<>> THEN v ELSE Minus(v, b)
----------------------------------------------------------------------------
AS0 == [v |-> [c \in 1..NC |-> 0], d |-> <<>>]
AfApply(s, c) ==
  CASE c.op = "make" -> LET d == TLCEval(Den(c.e)) IN
         IF BadRhs(c, d) THEN [s EXCEPT !.d = <<>>]
         ELSE [s EXCEPT !.d = <<[d |-> d, u |-> Used(c.e), ty |-> Type(c.n), l |-> Low(c, d), h |-> Upp(c, d), e |-> Eq(c, d)]>>]
    [] c.op = "val" -> [s EXCEPT !.v = c.v]
    [] OTHER -> s
AfEnabled(s, c) == c.op = "run" => s.d # <<>>
Value(s) == LET d == s.d[1].d IN [r \in 1..d.m |-> d.b[r] + Sum([c \in 1..NC |-> d.A[c][r]], s.v, NC)]
----------------------------------------------------------------------------
(* matrices for which what is recorded of a matrix is true; q are the queries, as in Props *)
RECURSIVE Det(_)
Minor(M, j) == [r \in 1..(Len(M) - 1) |-> [c \in 1..(Len(M) - 1) |-> M[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Cof(_, _)
Cof(M, j) == IF j = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * (IF M[1][j] = 0 THEN 0 ELSE Det(Minor(M, j))) + Cof(M, j - 1)
Det(M) == IF Len(M) = 1 THEN M[1][1] ELSE Cof(M, Len(M))
Square(M) == Rows(M) = Cols(M)
AllOf(M, P(_, _)) == \A r \in 1..Rows(M) : \A c \in 1..Cols(M) : P(r, c)
IsLow(M) == AllOf(M, LAMBDA r, c : c > r => M[r][c] = 0)
IsUp(M) == AllOf(M, LAMBDA r, c : c < r => M[r][c] = 0)
IsDia(M) == AllOf(M, LAMBDA r, c : r # c => M[r][c] = 0)
IsMult(M) == Square(M) /\ IsDia(M) /\ \A r \in 1..Rows(M) : M[r][r] = M[1][1]
IsZero(M) == AllOf(M, LAMBDA r, c : M[r][c] = 0)
IsSym(M) == Square(M) /\ AllOf(M, LAMBDA r, c : M[r][c] = M[c][r])
IsInv(M) == Square(M) /\ Det(M) # 0
RECURSIVE Asc(_)
Asc(K) == IF K = {} THEN <<>> ELSE LET a == CHOOSE a \in K : \A b \in K : a <= b IN <<a>> \o Asc(K \ {a})
Prin(M, K) == LET a == Asc(K) IN Det([r \in 1..Len(a) |-> [c \in 1..Len(a) |-> M[a[r]][a[c]]]])
IsPsd(M) == IsSym(M) /\ \A K \in SUBSET (1..Rows(M)) : K # {} => Prin(M, K) >= 0
IsPd(M) == IsPsd(M) /\ Det(M) # 0
OfShape(M, k) == CASE k = 0 -> TRUE [] k = 1 -> IsLow(M) [] k = 2 -> IsUp(M) [] k = 3 -> IsDia(M) [] k = 4 -> IsMult(M)
                   [] k = 5 -> IsMult(M) /\ M[1][1] = 1 [] k = 6 -> IsMult(M) /\ M[1][1] = -1 [] k = 7 -> IsZero(M)
OfPos(M, k) == CASE k = 0 -> TRUE [] k = 1 -> IsPsd(M) [] k = 2 -> IsPd(M) [] k = 3 -> IsPsd(MScale(-1, M)) [] k = 4 -> IsPd(MScale(-1, M))
                 [] k = 5 -> IsSym(M) [] k = 6 -> IsSym(M) /\ IsInv(M)
(* the zero matrix is said to be symmetric whatever its size *)
TrueOf(M, p) == OfShape(M, p.sh) /\ ((p.sh = 7 /\ p.po = 5) \/ OfPos(M, p.po)) /\ (p.inv = 1 => IsInv(M))
=============================================================================
