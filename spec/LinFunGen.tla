----------------------------- MODULE LinFunGen -----------------------------
EXTENDS LinFun, Json
CONSTANTS Depth
VARIABLES hist, fin
Pick(S) == RandomElement({x \in S : fin >= 0})
Odd(p) == Pick(1..100) <= p
V(n) == TLCEval([t \in 1..n |-> Pick(-3..3)])
M(m, n) == TLCEval([t \in 1..m |-> [u \in 1..n |-> Pick(-3..3)]])
Few == LET z == Pick({1, 1, 2, 2, 3}) IN TLCEval([t \in 1..z |-> IF Odd(3) THEN Rotation ELSE Pick(VId)])
Make(f) ==
  LET how == TLCEval(Pick({"A", "Ab", "Ab", "new", "id"})) xs == TLCEval(IF how = "id" THEN <<Pick(VId)>> ELSE Few) m == TLCEval(Pick(1..3))
      na == TLCEval(IF Odd(4) THEN Pick(1..3) ELSE Len(xs)) IN
  [op |-> "make", f |-> f, how |-> how, m |-> m, xs |-> IF how = "new" THEN [t \in 1..Len(xs) |-> IF xs[t] = Rotation THEN 12 ELSE xs[t]] ELSE xs, gr |-> Pick(1..3), one |-> Pick({0, 1}),
   As |-> TLCEval([t \in 1..na |-> M(IF t > 1 /\ Odd(4) THEN Pick(1..3) ELSE m, IF Odd(4) \/ t > Len(xs) THEN Pick(1..4) ELSE Cat[xs[t]].n)]), b |-> V(IF Odd(5) THEN Pick(1..3) ELSE m)]
Cmd ==
  LET r == TLCEval(Pick(1..100)) f == TLCEval(Pick(FId)) p == TLCEval(Pick(VId)) b == TLCEval(Pick(1..4)) k == TLCEval(Pick(0..2)) IN
  IF r <= 6 \/ ~Has(lf, f) THEN Make(f)
  ELSE LET g == lf.f[f] q == TLCEval(IF Odd(10) THEN p ELSE g.vs[Pick(1..Len(g.vs))]) IN
  IF r <= 36 THEN [op |-> "run", f |-> f]
  ELSE IF r <= 54 THEN [op |-> "val", b |-> b, k |-> k, v |-> V(Size[b])]
  ELSE IF r <= 64 THEN [op |-> "A", f |-> f, p |-> q, A |-> M(IF Odd(6) THEN Pick(1..3) ELSE g.m, IF Odd(6) THEN Pick(1..4) ELSE Cat[q].n)]
  ELSE IF r <= 67 THEN [op |-> "A1", f |-> f, A |-> M(IF Odd(6) THEN Pick(1..3) ELSE g.m, IF Odd(6) THEN Pick(1..4) ELSE Cat[g.vs[1]].n)]
  ELSE IF r <= 73 THEN [op |-> "b", f |-> f, v |-> V(IF Odd(6) THEN Pick(1..3) ELSE g.m)]
  ELSE IF r <= 81 THEN [op |-> "jac", f |-> f, p |-> p]
  ELSE IF r <= 84 THEN [op |-> "lin", f |-> f, p |-> p]
  ELSE LET form == TLCEval(Pick({"ord", "cat", "by"})) n == Len(g.vs)
           z == TLCEval(Pick(1..n)) o == TLCEval(Pick(1..n)) two == TLCEval(Odd(50))
           ps == TLCEval(IF form = "by" THEN (IF two THEN <<IF Odd(5) THEN p ELSE g.vs[z], g.vs[o]>> ELSE <<IF Odd(5) THEN p ELSE g.vs[z]>>) ELSE g.vs)
       IN [op |-> "ul", f |-> f, form |-> form, bad |-> IF form = "cat" /\ n > 1 /\ Odd(8) THEN 1 ELSE 0, what |-> Pick({"value", "value", "vel", "nacc", "jac"}), p |-> q, ps |-> ps,
           xs |-> TLCEval([t \in 1..Len(ps) |-> V(Cat[ps[t]].n)]), ds |-> TLCEval([t \in 1..Len(ps) |-> V(Cat[ps[t]].n)])]
InitR == lf = FS0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ UNCHANGED fin
     /\ \E c \in {Cmd} :
          IF LfEnabled(lf, c) THEN LET s == TLCEval(LfApply(lf, c)) IN lf' = s /\ hist' = Append(hist, c)
          ELSE UNCHANGED <<lf, hist>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<lf, hist>>
=============================================================================
