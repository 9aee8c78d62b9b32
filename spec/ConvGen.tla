------------------------------ MODULE ConvGen ------------------------------
EXTENDS Conv, Json
CONSTANTS Depth
VARIABLES hist, fin
Pick(S) == RandomElement({x \in S : fin >= 0})
Odd(p) == Pick(1..100) <= p
Entry(pr, sg) == CASE pr = "id" -> 1 [] pr = "mid" -> -1 [] pr = "diag" -> Pick({1, -1, 2, -2, 4, -4}) [] pr = "pd" -> Pick({1, 2, 4}) [] pr = "nd" -> Pick({-1, -2, -4})
                   [] pr = "mult" -> sg [] pr = "dsing" -> Pick({0, 1, -2}) [] OTHER -> 0
Mat(pr, m, n) == LET sg == TLCEval(Pick({2, -2, 4, -1})) IN
                 TLCEval([i \in 1..m |-> [j \in 1..n |-> IF pr = "none" THEN Pick({-2, -1, 0, 0, 1, 1, 2, 3}) ELSE IF i = j THEN Entry(pr, sg) ELSE 0]])
Choice(n) == TLCEval([t \in 1..n |-> Pick(PId)])
Apart(q) == \A a, b \in 1..Len(q) : a < b => ColsOf(q[a]) \cap ColsOf(q[b]) = {}
Prs == {"id", "mid", "diag", "pd", "nd", "mult"}
Hi(rhs, lo) == TLCEval([i \in 1..Len(lo) |-> IF rhs = "opp" THEN lo[i] - Pick(0..4) ELSE lo[i] + Pick(0..4)])
Src ==
  LET box == TLCEval(Odd(55))
      q0 == TLCEval(IF box THEN Choice(1) ELSE Choice(Pick(1..3)))
      q == IF Apart(q0) THEN q0 ELSE <<q0[1]>>
      m == TLCEval(IF box THEN Vars[q[1]].n ELSE Pick(1..3))
      prs == TLCEval([k \in 1..Len(q) |-> IF box THEN (IF Odd(90) THEN Pick(Prs) ELSE Pick({"dsing", "none"})) ELSE IF m = Vars[q[k]].n /\ Odd(40) THEN Pick(Prs \cup {"dsing"}) ELSE "none"])
      t == TLCEval(Pick({"eq", "ge", "le", "ds"}))
      rhs == TLCEval(IF t = "ds" THEN Pick({"as", "opp"}) ELSE Pick({"zero", "as", "as", "opp"}))
      lo == TLCEval([i \in 1..m |-> Pick(-3..3)])
  IN [t |-> t, rhs |-> rhs, bl |-> TLCEval([k \in 1..Len(q) |-> [p |-> q[k], pr |-> prs[k], M |-> Mat(prs[k], m, Vars[q[k]].n)]]),
      lo |-> lo, hi |-> Hi(rhs, lo)]
TypesFor(x) == IF Odd(8) THEN {"eq", "ge", "le", "ds"} ELSE IF x.t = "eq" THEN {"eq", "eq", "ds"} ELSE {"ge", "le", "ds"}
Asg(a) ==
  LET ks == {k \in SId : cv.src[k] # NoSrc}
      k == TLCEval(Pick(ks)) x == cv.src[k]
      kind == TLCEval(IF IsBox(x) THEN Pick({"gen", "bnd", "bnd", "sbnd", "sbnd"}) ELSE IF Odd(90) THEN "gen" ELSE Pick({"bnd", "sbnd"}))
      t == TLCEval(IF kind = "bnd" THEN "ds" ELSE IF kind = "sbnd" THEN Pick({"ge", "le"}) ELSE Pick(TypesFor(x)))
      rhs == TLCEval(IF kind # "gen" THEN "as" ELSE IF t = "ds" THEN Pick({"as", "opp"}) ELSE IF x.rhs = "zero" \/ Odd(6) THEN Pick({"zero", "as", "opp"}) ELSE Pick({"as", "opp"}))
      m == Len(x.bl[1].M)
      n == TLCEval(IF Odd(4) THEN Pick(1..4) ELSE IF x.t = "ds" /\ t # "ds" THEN 2 * m ELSE m)
      ats == {y \in 0..(R - n) : (y + 1)..(y + n) \cap Used(cv, 0) = {}}
      no == TLCEval(IF kind # "gen" THEN 1 ELSE Pick({0, 0, 0, 1}))
      w == TLCEval(IF no = 1 THEN 0 ELSE Pick({0, 0, 1, 4, 9}))
      aw == TLCEval(IF no = 1 \/ Odd(60) THEN <<>> ELSE [i \in 1..m |-> Pick({1, 4, 9})])
  IN IF ats = {} /\ kind = "gen" THEN [op |-> "run"]
     ELSE [op |-> "as", a |-> a, k |-> kind, s |-> k, t |-> t, rhs |-> rhs, at |-> IF kind = "gen" THEN Pick(ats) ELSE 0, n |-> n, sc |-> IF kind = "gen" /\ no = 0 THEN Pick({1, 1, 2}) ELSE 1, no |-> no, w |-> w, aw |-> aw]
Perm == Pick({<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>})
NewSrc == {k \in SId : cv.src[k] = NoSrc}
NewAsg == {a \in AId : ~Exists(cv, a)}
Cmd ==
  LET r == TLCEval(Pick(1..100)) k == TLCEval(Pick(SId)) a == TLCEval(Pick(AId)) IN
  IF NewSrc # {} /\ (r <= 50 \/ NewSrc = SId) THEN [op |-> "src", k |-> Pick(NewSrc), x |-> TLCEval(Src)]
  ELSE IF NewAsg # {} /\ r <= 60 THEN TLCEval(Asg(Pick(NewAsg)))
  ELSE IF r <= 50 THEN [op |-> "run"]
  ELSE IF r <= 66 THEN IF cv.src[k] = NoSrc THEN [op |-> "run"] ELSE LET x == cv.src[k] j == TLCEval(Pick(1..Len(x.bl))) b == x.bl[j] IN [op |-> "A", k |-> k, j |-> j, M |-> Mat(b.pr, Len(b.M), Vars[b.p].n)]
  ELSE IF r <= 74 THEN IF cv.src[k] = NoSrc THEN [op |-> "run"] ELSE LET m == Len(cv.src[k].bl[1].M) lo == TLCEval([i \in 1..m |-> Pick(-3..3)]) IN [op |-> "v", k |-> k, lo |-> lo, hi |-> Hi(cv.src[k].rhs, lo)]
  ELSE IF r <= 80 THEN [op |-> "w", a |-> a, v |-> Pick({1, 4, 9})]
  ELSE IF r <= 85 THEN IF ~Exists(cv, a) THEN [op |-> "run"] ELSE [op |-> "aw", a |-> a, v |-> TLCEval([i \in 1..Len(cv.src[cv.as[a].s].bl[1].M) |-> Pick({1, 4, 9})])]
  ELSE IF r <= 90 THEN [op |-> "map", o |-> Perm, how |-> Pick({0, 1})]
  ELSE IF r <= 93 THEN [op |-> "mem"]
  ELSE IF r <= 96 THEN [op |-> "at", a |-> a, at |-> Pick(0..(R - 1))]
  ELSE IF r <= 98 THEN [op |-> "rep", a |-> a]
  ELSE [op |-> "ask", a |-> a]
InitR == cv = CvSt0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ UNCHANGED fin
     /\ \E c \in {Cmd} :
          IF CvEnabled(cv, c) THEN LET s == TLCEval(CvApply(cv, c)) IN cv' = s /\ hist' = Append(hist, c)
          ELSE UNCHANGED <<cv, hist>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, Append(hist, [op |-> "run"])>>)) /\ UNCHANGED <<cv, hist>>
=============================================================================
