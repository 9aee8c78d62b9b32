----------------------------- MODULE CAssignGen -----------------------------
EXTENDS CAssign, Json, TLC
CONSTANTS Depth
VARIABLES hist, fin
Pick(S) == RandomElement({x \in S : fin >= 0})
Kinds == {[ty |-> a, A |-> b, W |-> d, M |-> e, F |-> f] : a \in {"v", "m"}, b \in AssignTypes, d \in WeightMults, e \in MatrixMults, f \in Sources}
KindsOk == {k \in Kinds : ~(k.F = "zero" /\ (k.W # "none" \/ k.M # "id")) /\ ~(k.ty = "m" /\ k.F = "cst")}
Val(n, r, c, lo, hi) == lo + (((n \div (1 + ((r * 5 + c * 3) % 11))) + n * r + c * (n \div 7) + r * c) % (hi - lo + 1))
Mat(n, lo, hi) == [r \in 1..4 |-> [c \in 1..4 |-> Val(n, r, c, lo, hi)]]
Vec(n, lo, hi) == [r \in 1..4 |-> Val(n, r, 2, lo, hi)]
Scales == <<1, -1, 2, -2, 4>>
DVec(n) == [r \in 1..4 |-> Scales[Val(n, r, 1, 1, 5)]]
View(nr, nc) == <<Pick({1, 2}), Pick(0..(4 - nr)), Pick(0..(4 - nc)), nr, nc>>
Dim == Pick({0, 1, 2, 2, 3, 3, 4})
Make(kd) ==
  LET n == TLCEval(Dim) c == TLCEval(IF kd.ty = "v" THEN 1 ELSE Dim) e == TLCEval(Dim)
      fr == IF kd.F = "zero" THEN 0 ELSE IF kd.F = "cst" THEN Pick(-3..3)
            ELSE IF kd.M # "gen" THEN View(n, c) ELSE IF kd.ty = "v" THEN View(e, 1) ELSE View(n, e)
      wt == IF kd.W = "scalar" THEN Pick({1, 2}) ELSE IF kd.W = "diag" THEN <<Pick({1, 2}), Pick(0..(4 - n)), n>> ELSE 0
      nm == IF kd.ty = "v" THEN n ELSE c
      mu == IF kd.M = "gen" THEN (IF kd.ty = "v" THEN View(n, e) ELSE View(e, c)) ELSE IF kd.M = "inv" THEN <<Pick({1, 2}), Pick(0..(4 - nm)), nm>> ELSE 0
  IN [ty |-> kd.ty, A |-> kd.A, W |-> kd.W, M |-> kd.M, F |-> kd.F, to |-> TLCEval(View(n, c)), fr |-> TLCEval(fr), wt |-> TLCEval(wt), mu |-> TLCEval(mu)]
\* sizes of the target, or of the source, mostly kept
ReView(v, ty) == IF Pick(1..4) = 1 THEN View(Dim, IF ty = "v" THEN 1 ELSE Dim) ELSE View(v[4], v[5])
Small(s) == \A b \in 1..2, r, c \in 1..4 : s.t[b][r][c] > -20000 /\ s.t[b][r][c] < 20000
Cmd ==
  LET r == TLCEval(Pick(1..100)) k == TLCEval(Pick(W)) j == TLCEval(Pick(W)) n == TLCEval(Pick(0..100000)) b == TLCEval(Pick({1, 2})) x == ca.w[k] IN
  IF (~Exists(ca, k) /\ r <= 90) \/ r <= 4 THEN [op |-> "make", k |-> k, x |-> TLCEval(Make(TLCEval(Pick(KindsOk))))]
  ELSE IF r <= 40 THEN [op |-> "run", k |-> k]
  ELSE IF r <= 50 THEN [op |-> "st", b |-> b, v |-> Mat(n, -9, 9)]
  ELSE IF r <= 58 THEN [op |-> "ss", b |-> b, v |-> Mat(n, -3, 3)]
  ELSE IF r <= 64 THEN [op |-> "sm", b |-> b, v |-> Mat(n, -2, 2)]
  ELSE IF r <= 68 THEN [op |-> "sd", b |-> b, v |-> DVec(n)]
  ELSE IF r <= 73 THEN [op |-> "sw", b |-> b, v |-> Pick(-2..3)]
  ELSE IF r <= 77 THEN [op |-> "sv", b |-> b, v |-> Vec(n, -2, 3)]
  ELSE IF r <= 84 THEN IF Exists(ca, k) THEN [op |-> "to", k |-> k, v |-> TLCEval(ReView(x.to, x.ty))] ELSE [op |-> "drop", k |-> k]
  ELSE IF r <= 90 THEN IF Exists(ca, k) THEN [op |-> "from", k |-> k, v |-> TLCEval(ReView(IF x.F = "ext" THEN x.fr ELSE <<1, 0, 0, 1, 1>>, x.ty))] ELSE [op |-> "drop", k |-> k]
  ELSE IF r <= 94 THEN [op |-> "fromc", k |-> k, v |-> Pick(-3..3)]
  ELSE IF r <= 97 THEN [op |-> "copy", k |-> k, j |-> j]
  ELSE IF r <= 99 THEN [op |-> "move", k |-> k, j |-> j]
  ELSE [op |-> "drop", k |-> k]
\* every buffer is filled first
Fill == LET n == TLCEval(Pick(0..100000)) q == Len(hist) b == 1 + (q % 2) IN
  CASE q < 2 -> [op |-> "st", b |-> b, v |-> Mat(n, -9, 9)] [] q < 4 -> [op |-> "ss", b |-> b, v |-> Mat(n, -3, 3)] [] q < 6 -> [op |-> "sm", b |-> b, v |-> Mat(n, -2, 2)]
    [] q < 8 -> [op |-> "sd", b |-> b, v |-> DVec(n)] [] q < 10 -> [op |-> "sw", b |-> b, v |-> Pick({-2, -1, 2, 3})] [] OTHER -> [op |-> "sv", b |-> b, v |-> Vec(n, -2, 3)]
InitR == ca = CSt0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ UNCHANGED fin
     /\ \E c \in {IF Len(hist) < 12 THEN Fill ELSE Cmd} :
          IF CEnabled(ca, c) THEN LET s == TLCEval(CApply(ca, c)) IN IF Small(s) THEN ca' = s /\ hist' = Append(hist, c) ELSE UNCHANGED <<ca, hist>>
          ELSE UNCHANGED <<ca, hist>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<ca, hist>>
=============================================================================
