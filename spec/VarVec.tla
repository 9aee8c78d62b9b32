------------------------------- MODULE VarVec -------------------------------
(* Vectors of variables, over a fixed pool of variables (some of them parts or derivatives of others). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vecs, P   \* vectors; the pool is 1..P
VARIABLES vec,  \* vec[v]: sequence of members of the pool
          val   \* val[s]: value of the super-variable s
vvars == <<vec, val>>
(* pool: super-variable, start, size *)
Pool == << <<1, 0, 3>>, <<1, 0, 2>>, <<1, 1, 2>>, <<1, 0, 2>>, <<2, 0, 5>>, <<2, 4, 1>>, <<3, 0, 4>>, <<3, 3, 1>>, <<4, 0, 3>>, <<5, 0, 0>>, <<6, 0, 1>>, <<3, 0, 3>>, <<2, 4, 0>> >>
SupSize == <<3, 5, 4, 3, 0, 1>>
Dot == <<9, 0, 0, 0, 7, 8, 0, 0, 0, 0, 0, 0, 0>>   \* derivatives that are in the pool
Sup(p) == Pool[p][1]
St(p) == Pool[p][2]
Sz(p) == Pool[p][3]
Equal(p, q) == Pool[p] = Pool[q]
In(x, p) == St(p) <= x /\ x < St(p) + Sz(p)
Contains(p, q) == Sup(p) = Sup(q) /\ (Equal(p, q) \/ (In(St(q), p) /\ St(q) + Sz(q) <= St(p) + Sz(p)))
Intersects(p, q) == Sup(p) = Sup(q) /\ (In(St(q), p) \/ In(St(p), q))
RECURSIVE SumSz(_)
SumSz(l) == IF l = <<>> THEN 0 ELSE Sz(Head(l)) + SumSz(Tail(l))
Zeros(n) == [j \in 1..n |-> 0]
VInit == vec = [v \in Vecs |-> <<>>] /\ val = [s \in 1..6 |-> Zeros(SupSize[s])]
---------------------------------------------------------------------------
Has(l, p) == \E j \in 1..Len(l) : Contains(l[j], p)
Clash(l, p) == ~Has(l, p) /\ \E j \in 1..Len(l) : Intersects(l[j], p)
(* outcome of an addition: the new list, and whether it is refused *)
Plus(l, p) == IF Has(l, p) \/ Clash(l, p) THEN l ELSE Append(l, p)
RECURSIVE PlusAll(_, _), ClashAll(_, _)
PlusAll(l, s) == IF s = <<>> \/ Clash(l, Head(s)) THEN l ELSE PlusAll(Plus(l, Head(s)), Tail(s))
ClashAll(l, s) == s # <<>> /\ (Clash(l, Head(s)) \/ ClashAll(Plus(l, Head(s)), Tail(s)))
Set(v, l) == vec' = [vec EXCEPT ![v] = l] /\ UNCHANGED val
Add(v, p) == Set(v, Plus(vec[v], p))
AddList(v, s) == Set(v, PlusAll(vec[v], s))
AddVec(v, w) == Set(v, PlusAll(vec[v], vec[w]))
First(l, p) == CHOOSE j \in 1..Len(l) : (Contains(l[j], p) \/ Intersects(l[j], p)) /\ \A k \in 1..(j - 1) : ~Contains(l[k], p) /\ ~Intersects(l[k], p)
Meets(l, p) == \E j \in 1..Len(l) : Contains(l[j], p) \/ Intersects(l[j], p)
IndexClash(l, p) == Meets(l, p) /\ ~Contains(l[First(l, p)], p)
IndexTold(l, p, c) == IF ~Meets(l, p) THEN Len(l) ELSE LET j == First(l, p) IN IF Equal(l[j], p) \/ c = 1 THEN j - 1 ELSE -1
AddIndex(v, p) == Set(v, IF Meets(vec[v], p) THEN vec[v] ELSE Append(vec[v], p))
HasEq(l, p) == \E j \in 1..Len(l) : Equal(l[j], p)
Drop(l, j) == SubSeq(l, 1, j - 1) \o SubSeq(l, j + 1, Len(l))
Rem(v, p) == Set(v, IF HasEq(vec[v], p) THEN Drop(vec[v], CHOOSE j \in 1..Len(vec[v]) : Equal(vec[v][j], p)) ELSE vec[v])
RemIdx(v, k) == Set(v, IF k >= 0 /\ k < Len(vec[v]) THEN Drop(vec[v], k + 1) ELSE vec[v])
Clear(v) == Set(v, <<>>)
Copy(v, w) == Set(v, vec[w])
(* moving leaves the source empty, and moving onto itself changes nothing *)
Move(v, w) == IF v = w THEN UNCHANGED vvars ELSE vec' = [vec EXCEPT ![v] = vec[w], ![w] = <<>>] /\ UNCHANGED val
Dots(v, w) == (\A j \in 1..Len(vec[w]) : Dot[vec[w][j]] > 0) /\ Set(v, PlusAll(<<>>, [j \in 1..Len(vec[w]) |-> Dot[vec[w][j]]]))
Write(vl, p, x) == [vl EXCEPT ![Sup(p)] = [j \in 1..Len(@) |-> IF j > St(p) /\ j <= St(p) + Sz(p) THEN x[j - St(p)] ELSE @[j]]]
RECURSIVE WriteAll(_, _, _)
WriteAll(vl, l, x) == IF l = <<>> THEN vl ELSE WriteAll(Write(vl, Head(l), x), Tail(l), SubSeq(x, Sz(Head(l)) + 1, Len(x)))
SetAll(v, x) == Len(x) = SumSz(vec[v]) /\ val' = WriteAll(val, vec[v], x) /\ UNCHANGED vec
ZeroAll(v) == SetAll(v, Zeros(SumSz(vec[v])))
SetOne(p, x) == Len(x) = Sz(p) /\ val' = Write(val, p, x) /\ UNCHANGED vec
Nop == UNCHANGED vvars
---------------------------------------------------------------------------
ValueOf(p) == SubSeq(val[Sup(p)], St(p) + 1, St(p) + Sz(p))
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN <<>> ELSE ValueOf(Head(l)) \o Concat(Tail(l))
IndexOf(l, p) == IF HasEq(l, p) THEN (CHOOSE j \in 1..Len(l) : Equal(l[j], p)) - 1 ELSE -1
\* <<-1, -1>>: not in the vector
Mapping(l, p) == IF Has(l, p) THEN LET j == CHOOSE j \in 1..Len(l) : Contains(l[j], p) IN <<SumSz(SubSeq(l, 1, j - 1)) + St(p) - St(l[j]), Sz(p)>> ELSE <<-1, -1>>
---------------------------------------------------------------------------
Cells(r) == {x \in 0..30 : r[1] <= x /\ x < r[1] + r[2]}
Disjoint == \A v \in Vecs : \A j, k \in 1..Len(vec[v]) : j # k =>
              /\ ~Equal(vec[v][j], vec[v][k])
              /\ Cells(Mapping(vec[v], vec[v][j])) \cap Cells(Mapping(vec[v], vec[v][k])) = {}
Tiled == \A v \in Vecs : UNION {Cells(Mapping(vec[v], vec[v][j])) : j \in 1..Len(vec[v])} = 0..(SumSz(vec[v]) - 1)
Indexed == \A v \in Vecs : \A j \in 1..Len(vec[v]) : IndexOf(vec[v], vec[v][j]) = j - 1
\* what a vector reports for a part of a member is the value of this part
Consistent == \A v \in Vecs : \A p \in 1..P : Has(vec[v], p) =>
     SubSeq(Concat(vec[v]), Mapping(vec[v], p)[1] + 1, Mapping(vec[v], p)[1] + Sz(p)) = ValueOf(p)
=============================================================================
