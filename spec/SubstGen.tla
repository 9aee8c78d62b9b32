------------------------------ MODULE SubstGen ------------------------------
(* Command sequences for Subst. The catalogs are read from the file CATS (see tools/subcat.py). *)
EXTENDS Subst, Json, IOUtils
CONSTANTS Depth
VARIABLES hist, fin
Cats == ndJsonDeserialize(IOEnv.CATS)
Pick(S) == RandomElement({x \in S : fin >= 0})
Rnd(n, lo, hi) == TLCEval([k \in 1..n |-> Pick(lo..hi)])
Plus(p, q) == [j \in 1..NC |-> p[j] + q[j]]
Cmd ==
  LET r == TLCEval(Pick(1..100))
      t == TLCEval(Pick(Tasks))
      u == TLCEval(Pick(Subs))
      v == TLCEval(Pick(1..NV))
      s == TLCEval(Pick(1..Len(cat.schemes)))
      base == cat.base[st.base]
      pts == TLCEval([k \in 1..7 |-> Plus(base, IF Pick(1..5) = 1 THEN Rnd(NC, -1, 1) ELSE cat.dirs[Pick(1..Len(cat.dirs))])])
      solve == [op |-> "solve", s |-> s - 1, w |-> TLCEval(Rnd(NC, -3, 3)), z |-> TLCEval(Rnd(4, -3, 3)), pts |-> pts]
      addt(x) == IF x \in st.in THEN solve ELSE [op |-> "add", t |-> x - 1]
      ins == SetToSeq(st.in)
      miss(x) == SetToSeq(CstrOf(x) \ st.in)
      sub(x) == IF x \in st.act THEN [op |-> "unsub", u |-> x - 1]
                ELSE IF miss(x) # <<>> THEN addt(miss(x)[1]) ELSE [op |-> "sub", u |-> x - 1]
      bn == TLCEval(Pick(1..Len(cat.base)))
      sc == TLCEval(Pick({-2, -1, 1, 2}))
      last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
      soft == SetToSeq({x \in Tasks : ~Hard(x)})
      wt == TLCEval(IF soft = <<>> THEN 0 ELSE soft[Pick(1..Len(soft))])
  IN IF hist = <<>> THEN [op |-> "base", n |-> bn, b |-> BasesFor(bn)]
     ELSE IF r <= 36 THEN IF last.op = "solve" THEN addt(t) ELSE solve
     ELSE IF r <= 50 THEN addt(t)
     ELSE IF r <= 68 THEN IF u \in st.act /\ Pick(1..3) > 1 THEN addt(t) ELSE sub(u)
     ELSE IF r <= 78 THEN IF ins = <<>> THEN addt(t) ELSE [op |-> "remove", t |-> TLCEval(ins[Pick(1..Len(ins))]) - 1]
     ELSE IF r <= 84 THEN [op |-> "base", n |-> bn, b |-> BasesFor(bn)]
     ELSE IF r <= 90 THEN IF CanScale(t) THEN [op |-> "scale", t |-> t - 1, f |-> sc, b |-> ScaledB(t, sc)] ELSE solve
     ELSE IF r <= 94 THEN IF HardEq(t) THEN addt(t) ELSE [op |-> "b", t |-> t - 1, b |-> TLCEval(Rnd(Len(T(t).b), -3, 3))]
     ELSE IF r <= 97 THEN IF wt = 0 THEN solve ELSE [op |-> "weight", t |-> wt - 1, w |-> TLCEval(Pick({1, 4, 9}))]
     ELSE [op |-> "x", v |-> v - 1, x |-> TLCEval(Rnd(cat.dims[v], -3, 3))]
Do(c) ==
  CASE c.op = "add" -> AddTask(c.t + 1)
    [] c.op = "remove" -> RemoveTask(c.t + 1)
    [] c.op = "sub" -> AddSub(c.u + 1)
    [] c.op = "unsub" -> RemoveSub(c.u + 1)
    [] c.op = "base" -> Base(c.n, c.b)
    [] c.op = "scale" -> Scale(c.t + 1, c.f, c.b)
    [] c.op = "b" -> SetB(c.t + 1, c.b)
    [] c.op = "weight" -> SetWeight(c.t + 1, c.w)
    [] c.op = "x" -> SetX(c.v + 1, c.x)
    [] c.op = "solve" -> Solved(st.val)
InitR == hist = <<>> /\ fin = 0 /\ cat = Cats[1] /\ st = InitSt(cat)
NextR ==
  \/ fin = 0 /\ fin' = 1 /\ (\E n \in {Pick(1..Len(Cats))} : cat' = Cats[n] /\ st' = InitSt(Cats[n])) /\ UNCHANGED hist
  \/ fin = 1 /\ Len(hist) < Depth /\ (\E c \in {Cmd} : Do(c) /\ hist' = Append(hist, c)) /\ UNCHANGED <<cat, fin>>
  \/ fin = 1 /\ Len(hist) = Depth /\ fin' = 2 /\ PrintT("GEN " \o ToJson(<<cat, hist>>)) /\ UNCHANGED <<cat, st, hist>>
=============================================================================
