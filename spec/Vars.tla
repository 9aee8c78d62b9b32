-------------------------------- MODULE Vars --------------------------------
(* Variables, their derivatives and primitives, and their sub-variables.

   A variable is designated by <<root, d>>: the d-th derivative of a root.  A root is a variable
   created from a space (a product of elementary spaces, the "atoms") or a sub-variable of one,
   made of its consecutive atoms lo..hi-1.  Values belong to <<base root, d>> only: sub-variables
   are windows on them.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, MaxD, MaxRoots
VARIABLES roots,   \* sequence of [b |-> base root (itself for a base), sp |-> atoms, lo, hi]
          val,     \* val[root][d + 1], for base roots
          hd       \* hd[slot]: <<root, d>>, or <<0, 0>>
vvars == <<roots, val, hd>>
(* atoms: dimension as a manifold (1), of the representation (2), of the tangent space (3) *)
Dims(a) == CASE a = "E1" -> <<1, 1, 1>> [] a = "E2" -> <<2, 2, 2>> [] a = "SO3" -> <<3, 4, 3>> [] a = "SE3" -> <<6, 7, 6>>
             [] a = "M" -> <<1, 2, 3>>
AtomNames == {"E1", "E2", "SO3", "SE3", "M"}
RECURSIVE Sum(_, _)
Sum(sp, w) == IF sp = <<>> THEN 0 ELSE Dims(Head(sp))[w] + Sum(Tail(sp), w)
Size(sp, d) == Sum(sp, IF d = 0 THEN 2 ELSE 3)
Zeros(n) == [j \in 1..n |-> 0]
Null == <<0, 0>>
VInit == roots = <<>> /\ val = <<>> /\ hd = [s \in Slots |-> Null]
(* description of a designated variable *)
Root(h) == roots[h[1]]
BaseOf(h) == Root(h).b
Atoms(h) == SubSeq(Root(h).sp, Root(h).lo, Root(h).hi - 1)
Before(h) == SubSeq(Root(h).sp, 1, Root(h).lo - 1)
Start(h) == Size(Before(h), h[2])
Len_(h) == Size(Atoms(h), h[2])
IsSub(h) == Root(h).b # h[1]
Super(h) == <<BaseOf(h), h[2]>>
Value(h) == SubSeq(val[BaseOf(h)][h[2] + 1], Start(h) + 1, Start(h) + Len_(h))
Write(h, x) == [val EXCEPT ![BaseOf(h)] = [@ EXCEPT ![h[2] + 1] =
                 [j \in 1..Len(@) |-> IF j > Start(h) /\ j <= Start(h) + Len_(h) THEN x[j - Start(h)] ELSE @[j]]]]
Live(s) == hd[s] # Null
Put(s, h) == hd' = [hd EXCEPT ![s] = h]
NewVal(sp) == [d \in 1..(MaxD + 1) |-> Zeros(Size(sp, d - 1))]
---------------------------------------------------------------------------
New(s, sp) ==
  /\ Len(roots) < MaxRoots
  /\ roots' = Append(roots, [b |-> Len(roots) + 1, sp |-> sp, lo |-> 1, hi |-> Len(sp) + 1])
  /\ val' = Append(val, NewVal(sp))
  /\ Put(s, <<Len(roots) + 1, 0>>)
Dot(s, h, n) == Live(h) /\ hd[h][2] + n <= MaxD /\ Put(s, <<hd[h][1], hd[h][2] + n>>) /\ UNCHANGED <<roots, val>>
PrimOk(h, n) == n <= hd[h][2]
Prim(s, h, n) == Live(h) /\ (IF PrimOk(h, n) THEN Put(s, <<hd[h][1], hd[h][2] - n>>) ELSE hd' = hd) /\ UNCHANGED <<roots, val>>
BasePrim(s, h) == Live(h) /\ Put(s, <<hd[h][1], 0>>) /\ UNCHANGED <<roots, val>>
GetSuper(s, h) == Live(h) /\ Put(s, Super(hd[h])) /\ UNCHANGED <<roots, val>>
GetSelf(s, h) == Live(h) /\ Put(s, hd[h]) /\ UNCHANGED <<roots, val>>
(* atoms i..j-1 of the variable (numbered from 1) *)
Sub(s, h, i, j) ==
  /\ Live(h) /\ Len(roots) < MaxRoots
  /\ 1 <= i /\ i <= j
  /\ IF j <= Len(Atoms(hd[h])) + 1
     THEN LET r == Root(hd[h]) IN
          /\ roots' = Append(roots, [b |-> r.b, sp |-> r.sp, lo |-> r.lo + i - 1, hi |-> r.lo + j - 1])
          /\ val' = Append(val, <<>>)
          /\ Put(s, <<Len(roots) + 1, hd[h][2]>>)
     ELSE UNCHANGED vvars
SubOk(h, j) == j <= Len(Atoms(hd[h])) + 1
Dup(s, h) ==
  /\ Live(h) /\ Len(roots) < MaxRoots
  /\ LET sp == Atoms(hd[h])
         n == Len(roots) + 1
     IN /\ roots' = Append(roots, [b |-> n, sp |-> sp, lo |-> 1, hi |-> Len(sp) + 1])
        /\ val' = Append(val, [NewVal(sp) EXCEPT ![hd[h][2] + 1] = Value(hd[h])])
        /\ Put(s, <<n, hd[h][2]>>)
SetOk(h, x) == Len(x) = Len_(hd[h])
Set(h, x) == Live(h) /\ val' = (IF SetOk(h, x) THEN Write(hd[h], x) ELSE val) /\ UNCHANGED <<roots, hd>>
SegOk(h, k, x) == k >= 0 /\ k + Len(x) <= Len_(hd[h])
SetSeg(h, k, x) == Live(h) /\ val' = (IF SegOk(h, k, x) THEN LET v == Value(hd[h]) IN
                      Write(hd[h], [j \in 1..Len(v) |-> IF j > k /\ j <= k + Len(x) THEN x[j - k] ELSE v[j]]) ELSE val)
                   /\ UNCHANGED <<roots, hd>>
Zero(h) == Set(h, Zeros(Len_(hd[h])))
Release(s) == Live(s) /\ Put(s, Null) /\ UNCHANGED <<roots, val>>
---------------------------------------------------------------------------
(* queries *)
InRange(i, st, n) == st <= i /\ i < st + n
SameSuper(a, b) == Super(a) = Super(b)
RContains(a, b) == InRange(Start(b), Start(a), Len_(a)) /\ Start(b) + Len_(b) <= Start(a) + Len_(a)
RIntersects(a, b) == InRange(Start(b), Start(a), Len_(a)) \/ InRange(Start(a), Start(b), Len_(b))
Equal(a, b) == SameSuper(a, b) /\ Start(a) = Start(b) /\ Len_(a) = Len_(b)
\* the equality is for empty variables
Contains(a, b) == SameSuper(a, b) /\ (Equal(a, b) \/ RContains(a, b))
Intersects(a, b) == SameSuper(a, b) /\ RIntersects(a, b)
DerivOf(a, b) == a[1] = b[1] /\ a[2] > b[2]
SuperOf(a, b) == IsSub(b) /\ Super(b) = a
B(x, n) == IF x THEN n ELSE 0
Rel(a, b) == B(a = b, 1) + B(Equal(a, b), 2) + B(Contains(a, b), 4) + B(Intersects(a, b), 8) + B(DerivOf(a, b), 16)
             + B(DerivOf(b, a), 32) + B(SuperOf(a, b), 64)
Euclidean(h) == h[2] > 0 \/ \A j \in 1..Len(Atoms(h)) : Atoms(h)[j] \in {"E1", "E2"}
---------------------------------------------------------------------------
(* properties of the model *)
Lives == {hd[s] : s \in {t \in Slots : Live(t)}}
TypeOk == \A s \in Slots : Live(s) => hd[s][1] \in 1..Len(roots) /\ hd[s][2] \in 0..MaxD /\ roots[BaseOf(hd[s])].b = BaseOf(hd[s])
Windows == \A a \in Lives : Start(a) + Len_(a) <= Len_(Super(a)) /\ Len(Value(a)) = Len_(a)
\* containment of non-empty variables is inclusion of the set of components, intersection is non-empty intersection
Comp(a) == {j \in 0..(Len_(Super(a)) - 1) : InRange(j, Start(a), Len_(a))}
SetAlgebra == \A a, b \in Lives : Len_(a) > 0 /\ Len_(b) > 0 /\ SameSuper(a, b) =>
                 /\ Contains(a, b) <=> Comp(b) \subseteq Comp(a)
                 /\ Intersects(a, b) <=> Comp(a) \cap Comp(b) # {}
\* derivation commutes with taking a part: the atoms of both sides are the same
Commute == \A a \in Lives : a[2] > 0 => Atoms(<<a[1], 0>>) = Atoms(a) /\ (Euclidean(<<a[1], 0>>) => Start(a) = Start(<<a[1], 0>>) \/ ~Euclidean(<<BaseOf(a), 0>>))
=============================================================================
