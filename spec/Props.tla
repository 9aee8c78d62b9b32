-------------------------------- MODULE Props --------------------------------
(* Properties declared of a matrix, against the (2 x 2, integer) matrices that have them.
   A declaration is [sh, po, c, v]: shape 0..7 (general, lower, upper, diagonal, multiple of identity, identity,
   minus identity, zero), positiveness 0..6 (unknown, psd, pd, nsd, nd, symmetric, symmetric without eigenvalue 0),
   constant and invertible: 0 no, 1 yes, 2 not said. Matrices are <<a, b, c, d>> by rows, in units of 1/u.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Small == (-1..1) \X (-1..1) \X (-1..1) \X (-1..1)
Sym2 == {<<a, b, b, d>> : a, b, d \in -2..2}
Tri2 == {<<a, b, 0, d>> : a, b, d \in -2..2} \cup {<<a, 0, b, d>> : a, b, d \in {-2, 0, 1}}
Sample == Small \cup Sym2 \cup Tri2
Det(m) == m[1] * m[4] - m[2] * m[3]
Low(m) == m[2] = 0
Up(m) == m[3] = 0
Dia(m) == Low(m) /\ Up(m)
Mult(m) == Dia(m) /\ m[1] = m[4]
Id(m, u) == Mult(m) /\ m[1] = u
Zero(m) == Mult(m) /\ m[1] = 0
Sym(m) == m[2] = m[3]
Psd(m) == Sym(m) /\ m[1] >= 0 /\ m[4] >= 0 /\ Det(m) >= 0
Pd(m) == Sym(m) /\ m[1] > 0 /\ Det(m) > 0
Neg(m) == <<-m[1], -m[2], -m[3], -m[4]>>
Inv(m) == Det(m) # 0
OfShape(m, k, u) == CASE k = 0 -> TRUE [] k = 1 -> Low(m) [] k = 2 -> Up(m) [] k = 3 -> Dia(m) [] k = 4 -> Mult(m)
                      [] k = 5 -> Id(m, u) [] k = 6 -> Id(Neg(m), u) [] k = 7 -> Zero(m)
OfPos(m, k) == CASE k = 0 -> TRUE [] k = 1 -> Psd(m) [] k = 2 -> Pd(m) [] k = 3 -> Psd(Neg(m)) [] k = 4 -> Pd(Neg(m))
                 [] k = 5 -> Sym(m) [] k = 6 -> Sym(m) /\ Inv(m)
(* the queries, in the order in which they are reported *)
Asked == <<"inv", "tri", "low", "up", "dia", "mult", "id", "mid", "zero", "sym", "psd", "pd", "nsd", "nd", "ind", "nzi">>
Has(m, q, u) ==
  CASE q = 1 -> Inv(m) [] q = 2 -> Low(m) \/ Up(m) [] q = 3 -> Low(m) [] q = 4 -> Up(m) [] q = 5 -> Dia(m) [] q = 6 -> Mult(m)
    [] q = 7 -> Id(m, u) [] q = 8 -> Id(Neg(m), u) [] q = 9 -> Zero(m) [] q = 10 -> Sym(m) [] q = 11 -> Psd(m) [] q = 12 -> Pd(m)
    [] q = 13 -> Psd(Neg(m)) [] q = 14 -> Pd(Neg(m)) [] q = 15 -> Sym(m) [] q = 16 -> Sym(m) /\ Inv(m)
Facts(S, u) == [q |-> [k \in 1..16 |-> \A m \in S : Has(m, k, u)], sh |-> [k \in 0..7 |-> \A m \in S : OfShape(m, k, u)], po |-> [k \in 0..6 |-> \A m \in S : OfPos(m, k)]]
(* the matrices with what is declared; what is said not to be invertible or constant is only not known to be *)
SatOf == TLCEval([sh \in 0..7 |-> [po \in 0..6 |-> [ix \in 0..1 |-> {m \in Sample : OfShape(m, sh, 1) /\ OfPos(m, po) /\ (ix = 1 => Inv(m))}]]])
Sat(d) == SatOf[d.sh][d.po][IF d.v = 1 THEN 1 ELSE 0]
Const(d) == d.c = 1 \/ d.sh >= 5
Contradictory(d) == \/ Sat(d) = {}
                    \/ d.c = 0 /\ d.sh >= 5
                    \/ d.v = 0 /\ \A m \in Sat(d) : Inv(m)
Decls == [sh : 0..7, po : 0..6, c : 0..2, v : 0..2]
Operands == {d \in [sh : 0..7, po : 0..6, c : 1..2, v : 1..2] : ~Contradictory(d)}
(* classes of declarations that have the same matrices *)
ClassSets == TLCEval({Sat(d) : d \in Operands})
Class == TLCEval(SetToSeq(ClassSets))
IdxOf == TLCEval([sh \in 0..7 |-> [po \in 0..6 |-> [ix \in 0..1 |-> IF SatOf[sh][po][ix] = {} THEN 0 ELSE CHOOSE k \in 1..Len(Class) : Class[k] = SatOf[sh][po][ix]]]])
Idx(d) == IdxOf[d.sh][d.po][IF d.v = 1 THEN 1 ELSE 0]
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
Mul(a, b) == <<a[1] * b[1] + a[2] * b[3], a[1] * b[2] + a[2] * b[4], a[3] * b[1] + a[4] * b[3], a[3] * b[2] + a[4] * b[4]>>
Scale(f, a) == <<f * a[1], f * a[2], f * a[3], f * a[4]>>
FDecl == TLCEval([ix \in 1..Len(Class) |-> Facts(Class[ix], 1)])
FAdd == TLCEval([ix \in 1..Len(Class) |-> [j \in 1..Len(Class) |-> Facts({Add(a, b) : a \in Class[ix], b \in Class[j]}, 1)]])
FSub == TLCEval([ix \in 1..Len(Class) |-> [j \in 1..Len(Class) |-> Facts({Add(a, Neg(b)) : a \in Class[ix], b \in Class[j]}, 1)]])
FMul == TLCEval([ix \in 1..Len(Class) |-> [j \in 1..Len(Class) |-> Facts({Mul(a, b) : a \in Class[ix], b \in Class[j]}, 1)]])
Factors == -4..4  \* halves
FScale == TLCEval([f \in Factors |-> [ix \in 1..Len(Class) |-> Facts({Scale(f, a) : a \in Class[ix]}, 2)]])
FNeg == TLCEval([ix \in 1..Len(Class) |-> Facts({Neg(a) : a \in Class[ix]}, 1)])
(* what is reported: r.q the queries, r.sh, r.po, r.c *)
Sound(r, F) == /\ \A k \in 1..16 : r.q[k] = 1 => F.q[k]
               /\ F.sh[r.sh] /\ F.po[r.po]
\* everything that is implied is reported
Exact(r, F) == /\ \A k \in 1..16 : (r.q[k] = 1) <=> F.q[k]
               /\ F.sh[r.sh] /\ F.po[r.po]
ConstOk(r, c) == r.c = 1 => c \/ r.q[7] = 1 \/ r.q[8] = 1 \/ r.q[9] = 1
Answer(c, r) ==
  IF c.op = "decl" THEN
    IF Contradictory(c.a) THEN r = [exc |-> 1]
    ELSE "q" \in DOMAIN r /\ Exact(r, FDecl[Idx(c.a)]) /\ (r.c = 1 <=> Const(c.a))
  ELSE
    /\ "q" \in DOMAIN r
    /\ CASE c.op = "neg" -> Sound(r, FNeg[Idx(c.a)]) /\ ConstOk(r, Const(c.a))
         [] c.op = "scale" -> Sound(r, FScale[c.f][Idx(c.a)]) /\ ConstOk(r, Const(c.a))
         [] c.op = "add" -> Sound(r, FAdd[Idx(c.a)][Idx(c.b)]) /\ ConstOk(r, Const(c.a) /\ Const(c.b))
         [] c.op = "sub" -> Sound(r, FSub[Idx(c.a)][Idx(c.b)]) /\ ConstOk(r, Const(c.a) /\ Const(c.b))
         [] c.op = "mul" -> Sound(r, FMul[Idx(c.a)][Idx(c.b)]) /\ ConstOk(r, Const(c.a) /\ Const(c.b))
=============================================================================
