----------------------------- MODULE AffineGen -----------------------------
(* Random expressions; the same expression is built again with other numbers. *)
EXTENDS Affine, Json
CONSTANTS Deep, Again
VARIABLES hist, fin, tree
Pick(S) == RandomElement({x \in S : fin >= 0})
Odd(p) == Pick(1..100) <= p
Num == Pick(-3..3)
NonNull == Pick({-3, -2, -1, 1, 2, 3})
RV(n) == TLCEval([t \in 1..n |-> Num])
RM(m, n) == TLCEval(LET z == TLCEval(Pick(1..12)) IN
  CASE z = 1 /\ m = n -> Eye(m, n) [] z = 2 /\ m = n -> MScale(NonNull, Eye(m, n)) [] z = 3 -> MScale(0, Eye(m, n)) [] OTHER -> [t \in 1..m |-> [u \in 1..n |-> Num]])
OfWidth(m) == {p \in PIds : Width(p) = m}
RECURSIVE GM(_, _, _)
GM(m, n, d) ==
  LET z == TLCEval(Pick(1..100)) IN
  IF d = 0 \/ z <= 45 THEN (IF Odd(12) THEN [k |-> "mi", r |-> m, c |-> n] ELSE [k |-> "m", v |-> RM(m, n)])
  ELSE IF z <= 57 THEN LET h == TLCEval(Pick(1..3)) IN [k |-> "mm", l |-> TLCEval(GM(m, h, d - 1)), o |-> TLCEval(GM(h, n, d - 1))]
  ELSE IF z <= 67 THEN [k |-> Pick({"ma", "mb"}), l |-> TLCEval(GM(m, n, d - 1)), o |-> TLCEval(GM(m, n, d - 1))]
  ELSE IF z <= 75 THEN [k |-> "mt", e |-> [k |-> "m", v |-> RM(n, m)]]
  ELSE IF z <= 83 THEN [k |-> "ms", s |-> NonNull, e |-> TLCEval(GM(m, n, d - 1))]
  ELSE IF z <= 92 THEN [k |-> "mn", e |-> TLCEval(GM(m, n, d - 1))]
  ELSE [k |-> "md", v |-> RV(m), e |-> [k |-> "m", v |-> RM(m, n)]]
RECURSIVE GV(_, _)
GV(m, d) ==
  LET z == TLCEval(Pick(1..100)) IN
  IF d = 0 \/ z <= 50 THEN (IF Odd(15) THEN [k |-> "vc", n |-> m, s |-> Num] ELSE [k |-> "v", v |-> RV(m)])
  ELSE IF z <= 65 THEN [k |-> Pick({"va", "vb"}), l |-> TLCEval(GV(m, d - 1)), o |-> TLCEval(GV(m, d - 1))]
  ELSE IF z <= 76 THEN [k |-> "vs", s |-> Num, e |-> TLCEval(GV(m, d - 1))]
  ELSE IF z <= 86 THEN [k |-> "vn", e |-> TLCEval(GV(m, d - 1))]
  ELSE LET h == TLCEval(Pick(1..3)) IN [k |-> "vp", l |-> TLCEval(GM(m, h, d - 1)), o |-> [k |-> "v", v |-> RV(h)]]
GX(p) == [k |-> "x", p |-> p, t |-> Pick({0, 0, 1})]
RECURSIVE GE(_, _)
GE(m, d) ==
  LET z == TLCEval(Pick(1..100)) IN
  IF d = 0 \/ z <= 12
    THEN LET y == TLCEval(Pick(1..100)) IN
         IF y <= 25 THEN GX(Pick(OfWidth(m)))
         ELSE IF y <= 35 THEN [k |-> "neg", e |-> GX(Pick(OfWidth(m)))]
         ELSE IF y <= 47 THEN [k |-> "scl", s |-> NonNull, e |-> GX(Pick(OfWidth(m)))]
         ELSE LET p == TLCEval(Pick(PIds)) IN [k |-> "mul", l |-> TLCEval(GM(m, Width(p), Pick(0..2))), e |-> GX(p)]
  ELSE IF z <= 52 THEN [k |-> Pick({"add", "add", "sub"}), l |-> TLCEval(GE(m, d - 1)), o |-> TLCEval(GE(m, Pick(0..(d - 1))))]
  ELSE IF z <= 62 THEN LET h == TLCEval(Pick(1..3)) IN [k |-> "mul", l |-> TLCEval(GM(m, h, Pick(0..1))), e |-> TLCEval(GE(h, d - 1))]
  ELSE IF z <= 69 THEN [k |-> "neg", e |-> TLCEval(GE(m, d - 1))]
  ELSE IF z <= 76 THEN [k |-> "scl", s |-> NonNull, e |-> TLCEval(GE(m, d - 1))]
  ELSE IF z <= 86 THEN [k |-> Pick({"addv", "vadd", "subv"}), v |-> TLCEval(GV(m, Pick(0..2))), e |-> TLCEval(GE(m, d - 1))]
  ELSE IF z <= 89 THEN [k |-> "vsub", v |-> TLCEval(GV(m, Pick(0..2))), e |-> GX(Pick(OfWidth(m)))]
  ELSE [k |-> "let", e |-> TLCEval(GE(m, d - 1))]
GR(m, num) == IF Odd(45) THEN [k |-> "num", s |-> Num] ELSE GV(IF Odd(4) THEN Pick(1..4) ELSE m, Pick(0..1))
Rels == {"fn", "eq", "ge", "le", "eqr", "ger", "ler", "lmu", "uml"}
Fresh ==
  LET m == TLCEval(Pick(1..4)) e == TLCEval(GE(m, Pick(1..Deep))) n == TLCEval(IF Odd(35) THEN "fn" ELSE Pick(Rels)) IN
  [op |-> "make", e |-> e, n |-> n, on |-> IF n = "fn" THEN "expr" ELSE Pick({"expr", "expr", "blf", "lin", "fun"}), r |-> TLCEval(GR(m, 1)), q |-> TLCEval(GR(m, 1))]
(* other numbers *)
RECURSIVE Re(_)
Re(e) ==
  LET f == TLCEval(IF "s" \in DOMAIN e THEN [e EXCEPT !.s = IF @ = 0 THEN Num ELSE NonNull] ELSE e)
      g == TLCEval(IF "e" \in DOMAIN f THEN [f EXCEPT !.e = TLCEval(Re(@))] ELSE f)
      h == TLCEval(IF "l" \in DOMAIN g THEN [g EXCEPT !.l = TLCEval(Re(@))] ELSE g)
      w == TLCEval(IF "o" \in DOMAIN h THEN [h EXCEPT !.o = TLCEval(Re(@))] ELSE h)
  IN IF "v" \notin DOMAIN w THEN w
     ELSE CASE w.k = "m" -> [w EXCEPT !.v = RM(Rows(w.v), Cols(w.v))]
            [] w.k \in {"v", "md"} -> [w EXCEPT !.v = RV(Len(@))]
            [] OTHER -> [w EXCEPT !.v = TLCEval(Re(@))]
Anew(c) == [c EXCEPT !.e = TLCEval(Re(@)), !.r = TLCEval(Re(@)), !.q = TLCEval(Re(@))]
Steps == 1 + 5 * Again
InitR == af = AS0 /\ hist = <<>> /\ fin = 0 /\ tree = <<>>
NextR ==
  \/ Len(hist) < Steps /\ UNCHANGED fin
     /\ LET k == Len(hist) % 5 IN
        \E c \in {TLCEval(IF k = 0 THEN (IF tree = <<>> THEN Fresh ELSE Anew(tree[1])) ELSE IF k % 2 = 0 \/ af.d = <<>> THEN [op |-> "val", v |-> TLCEval([c \in 1..NC |-> Num])] ELSE [op |-> "run"])} :
          LET s == TLCEval(AfApply(af, c)) IN af' = s /\ hist' = Append(hist, c) /\ tree' = IF k = 0 THEN <<c>> ELSE tree
  \/ Len(hist) = Steps /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, SubSeq(hist, 1, Steps - 1)>>)) /\ UNCHANGED <<af, hist, tree>>
=============================================================================
