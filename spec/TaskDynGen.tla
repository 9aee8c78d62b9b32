----------------------------- MODULE TaskDynGen -----------------------------
EXTENDS TaskDyn, Json
CONSTANTS Depth
VARIABLES hist, fin
Pick(S) == RandomElement({x \in S : fin >= 0})
V(n, S) == TLCEval([t \in 1..n |-> Pick(S)])
M(n, k, S) == TLCEval([t \in 1..n |-> [u \in 1..k |-> Pick(S)]])
Odd(p) == Pick(1..100) <= p
\* symmetric, positive: a * identity + b * ones, or diagonal with one coupling
Sym(m) == LET a == Pick(1..3) b == Pick({0, 1, 1, 2}) e == V(m, 0..1) IN TLCEval([r \in 1..m |-> [t \in 1..m |-> IF r = t THEN a + b * e[r] * e[r] ELSE b * e[r] * e[t]]])
Gain(m) == LET k == Pick(1..3) n == TLCEval(IF Odd(8) THEN Pick(1..3) ELSE m) c == TLCEval(IF Odd(8) THEN Pick(1..3) ELSE n) IN
  CASE k = 1 -> [k |-> "s", v |-> Pick(-1..4)] [] k = 2 -> [k |-> "v", v |-> V(n, -1..4)] [] k = 3 -> [k |-> "m", v |-> M(n, c, -2..3)]
GainOk(m) == LET k == Pick(1..3) IN
  CASE k = 1 -> [k |-> "s", v |-> Pick(-1..4)] [] k = 2 -> [k |-> "v", v |-> V(m, -1..4)] [] k = 3 -> [k |-> "m", v |-> M(m, m, -2..3)]
Root(m) == LET k == Pick(1..3) IN
  CASE k = 1 -> [k |-> "s", v |-> Pick(0..3)] [] k = 2 -> [k |-> "v", v |-> V(m, 0..3)] [] k = 3 -> [k |-> "m", v |-> Sym(m)]
Td(m, ty) ==
  LET k == TLCEval(Pick(IF ty = "E" THEN {"none", "const", "p", "pd", "pd", "os", "ref"} ELSE {"none", "const", "p", "pd", "os", "ref", "vd", "vd1", "vd2"}))
      kk == IF k \in {"vd1", "vd2"} THEN "vd" ELSE k
      w == TLCEval(Pick({<<>>, <<>>, <<"ff">>, <<"cl">>, <<"ff", "cl">>, <<"cl", "ff">>}))
      cf == TLCEval(Pick({"s", "p", "v", "vp"}))
      cm == TLCEval(IF cf \in {"s", "p"} THEN 1 ELSE IF Odd(6) THEN Pick(1..3) ELSE m)
      hi == V(cm, IF Odd(5) THEN -1..3 ELSE {0, 1, 2, 3, 5, 10, 20})
      lo == IF cf \in {"s", "v"} THEN TLCEval([t \in 1..cm |-> -hi[t]]) ELSE V(cm, IF Odd(5) THEN -3..1 ELSE {0, -1, -2, -3, -5, -10, -20})
      rec == [k |-> kk, w |-> IF kk \in {"none", "const"} THEN <<>> ELSE w, cf |-> cf, lo |-> lo, hi |-> hi, ffn |-> IF Odd(5) THEN Pick(1..3) ELSE m]
      vm == TLCEval(IF Odd(50) THEN 1 ELSE IF Odd(6) THEN Pick(1..3) ELSE m)
      ds == V(vm, IF Odd(3) THEN -1..2 ELSE 0..2)
      di == TLCEval([t \in 1..vm |-> ds[t] + Pick(IF Odd(3) THEN 0..2 ELSE 1..4)])
      auto == TLCEval(Odd(55))
      o == TLCEval(Pick({1, 2}))
  IN CASE kk \in {"none", "const"} -> rec
       [] kk = "p" -> rec @@ [g |-> Gain(m)]
       [] kk = "pd" -> IF Odd(40) THEN rec @@ [cd |-> 1, g |-> Root(m)] ELSE rec @@ [cd |-> 0, g |-> GainOk(m), h |-> GainOk(m)]
       [] kk = "os" -> rec @@ [o |-> IF Odd(4) THEN 0 ELSE o, idt |-> IF Odd(4) THEN -1 ELSE Pick({1, 2, 4})]
       [] kk = "ref" -> rec @@ [o |-> o, R |-> M(m, 2, -3..3), nul |-> IF Odd(5) THEN 1 ELSE 0]
       [] kk = "vd" -> rec @@ [o |-> o, di |-> di, ds |-> ds, xsi |-> IF auto THEN V(vm, IF Odd(4) THEN 0..1 ELSE {0}) ELSE V(vm, IF Odd(4) THEN -1..3 ELSE 1..3),
                               off |-> V(vm, IF Odd(4) THEN -1..2 ELSE 0..2), idt |-> IF o = 1 THEN 0 ELSE IF Odd(4) THEN -1 ELSE Pick({1, 2, 4}), big |-> IF Odd(4) THEN Pick({0, -1}) ELSE Pick({10, 1000})]
MakeCmd ==
  LET m == TLCEval(Pick(1..3)) ty == TLCEval(Pick({"E", "L", "G", "D", "D"})) td == TLCEval(Td(m, ty))
      how == TLCEval(IF Odd(50) THEN "P" ELSE IF Odd(4) THEN Pick({"S", "D"}) ELSE IF ty = "D" THEN "D" ELSE "S")
      rk == TLCEval(IF ty = "D" \/ how # "S" THEN Pick({"s", "v"}) ELSE Pick({"n", "s", "v"}))
      rn == TLCEval(IF rk = "v" THEN (IF Odd(5) THEN Pick(1..3) ELSE m) ELSE 1)
      small == td.k = "vd"
  IN [op |-> "make", m |-> m, lin |-> IF td.k \in {"none", "const"} THEN (IF Odd(92) THEN 1 ELSE 0) ELSE Pick({0, 1}), ty |-> ty, td |-> td, how |-> IF how = "P" /\ ty = "D" THEN "PD" ELSE how,
      rk |-> rk, r1 |-> V(rn, -2..2), r2 |-> V(rn, -2..4), A |-> M(m, 3, IF small THEN -1..1 ELSE -2..2), q |-> V(m, -1..1), b |-> V(m, -3..3),
      full |-> Pick(0..3), sub |-> Pick({0, 0, 1}), mir |-> Pick({0, 1}), ltc |-> Pick({0, 1})]
Cmd ==
  LET r == TLCEval(Pick(1..100)) m == IF tk.on = 1 THEN tk.c.m ELSE 1 sd == TLCEval(IF tk.on = 1 THEN Pick(Sides(tk.c.ty)) ELSE 1)
      lim == tk.on = 1 /\ tk.c.td.k = "vd" IN
  IF tk.on = 0 \/ r <= 6 THEN MakeCmd
  ELSE IF r <= 46 THEN [op |-> "run"]
  ELSE IF r <= 64 THEN [op |-> "x", v |-> V(3, IF lim THEN -2..2 ELSE -3..3)]
  ELSE IF r <= 74 THEN [op |-> "dx", v |-> V(3, -2..2)]
  ELSE IF r <= 77 THEN [op |-> "ddx", v |-> V(3, -2..2)]
  ELSE IF r <= 80 THEN [op |-> "z", v |-> Pick(-3..3)]
  ELSE IF r <= 85 THEN [op |-> "ff", v |-> V(3, -3..3)]
  ELSE IF r <= 88 THEN [op |-> "b", v |-> V(m, -3..3)]
  ELSE IF r <= 91 THEN [op |-> "A", v |-> M(m, 3, -1..1)]
  ELSE IF r <= 95 THEN LET cd == TLCEval(IF tk.c.td.k = "pd" /\ Odd(50) THEN 1 ELSE 0) IN [op |-> "gain", sd |-> sd, cd |-> cd, g |-> TLCEval(IF cd = 1 THEN Root(m) ELSE Gain(m)), h |-> TLCEval(Gain(m))]
  ELSE IF r <= 97 THEN [op |-> "lim", sd |-> sd, lo |-> V(3, {0, -1, -2, -5, -10}), hi |-> V(3, {0, 1, 2, 5, 10})]
  ELSE [op |-> "cast", sd |-> sd, k |-> Pick({tk.c.td.k, "none", "const", "p", "pd", "os", "ref", "vd"})]
InitR == tk = TS0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ UNCHANGED fin
     /\ \E c \in {Cmd} :
          IF TdEnabled(tk, c) THEN LET s == TLCEval(TdApply(tk, c)) IN IF SmallOut(s) THEN tk' = s /\ hist' = Append(hist, c) ELSE UNCHANGED <<tk, hist>>
          ELSE UNCHANGED <<tk, hist>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<tk, hist>>
=============================================================================
