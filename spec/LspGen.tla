------------------------------- MODULE LspGen -------------------------------
(* Command sequences for Lsp. The catalogs are read from the file CATS (see tools/catalog.py). *)
EXTENDS Lsp, Json, IOUtils
CONSTANTS Depth
VARIABLES hist, fin
Cats == ndJsonDeserialize(IOEnv.CATS)
\* depends on the state: TLC would evaluate a constant expression once only
Pick(S) == RandomElement({x \in S : fin >= 0})
Rnd(n, lo, hi) == TLCEval([k \in 1..n |-> Pick(lo..hi)])
InProb(k) == st.in[k]
\* a change of weight that weighted least-squares refuse once
WRefused(x) == T(x).p = 0 /\ (\E y \in 1..Len(cat.schemes) : ~Hier(y))
Cmd ==
  LET r == TLCEval(Pick(1..100))
      k == TLCEval(Pick(Probs))
      t == TLCEval(Pick(Tasks))
      sol == TLCEval(Rnd(NC, -3, 3))
      v == TLCEval(Pick(1..NV))
      s == TLCEval(Pick(1..Len(cat.schemes)))
      solve == [op |-> "solve", k |-> k - 1, s |-> s - 1, ok |-> IF Pick(1..100) <= cat.fail THEN 0 ELSE 1, sol |-> sol]
      add == IF t \in InProb(k) THEN solve ELSE [op |-> "add", k |-> k - 1, t |-> t - 1]
      ins == SetToSeq(InProb(k))
      bad == SelectSeq(ins, LAMBDA x : \A y \in 1..Len(cat.schemes) : Cannot(x, y))
      u == TLCEval(IF bad # <<>> THEN bad[1] ELSE IF ins = <<>> THEN 0 ELSE ins[Pick(1..Len(ins))])
      soft == SelectSeq(ins, LAMBDA x : T(x).p > 0)
      wt == TLCEval(IF soft # <<>> /\ Pick(1..4) > 1 THEN soft[Pick(1..Len(soft))] ELSE t)
      last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
      q == TLCEval(Pick(1..100))
      weight(x) == [op |-> "weight", t |-> x - 1, w |-> TLCEval(Pick({1, 4, 9}))]
      aweight(x) == [op |-> "aweight", t |-> x - 1, aw |-> TLCEval([y \in 1..Len(T(x).b) |-> Pick({1, 4, 9})])]
  IN \* several changes of the same task between two resolutions
     IF last.op = "weight" /\ q <= 35 /\ ~WRefused(last.t + 1) THEN aweight(last.t + 1)
     ELSE IF last.op = "aweight" /\ q <= 35 /\ ~WRefused(last.t + 1) THEN weight(last.t + 1)
     ELSE IF last.op = "remove" /\ q <= 15 /\ ~(last.t + 1 \in InProb(last.k + 1)) THEN [op |-> "add", k |-> last.k, t |-> last.t]
     ELSE IF last.op = "add" /\ q <= 10 /\ (last.t + 1 \in InProb(last.k + 1)) THEN [op |-> "remove", k |-> last.k, t |-> last.t]
     ELSE IF r <= 28 THEN solve
     ELSE IF r <= 55 THEN add
     ELSE IF r <= 68 THEN IF u = 0 THEN add ELSE [op |-> "remove", k |-> k - 1, t |-> u - 1]
     ELSE IF r <= 69 THEN IF t \in InProb(k) THEN solve ELSE [op |-> "remove", k |-> k - 1, t |-> t - 1]
     ELSE IF r <= 78 THEN IF WRefused(wt) /\ Pick(1..5) > 1 THEN add ELSE weight(wt)
     ELSE IF r <= 86 THEN IF WRefused(wt) /\ Pick(1..5) > 1 THEN solve ELSE aweight(wt)
     ELSE IF r <= 92 THEN [op |-> "b", t |-> t - 1, b |-> TLCEval(Rnd(Len(T(t).b), -3, 3))]
     ELSE IF r <= 96 THEN LET j == TLCEval(Pick(1..Len(T(t).bl)))
                              al == T(t).bl[j].alts
                          IN IF al = <<>> THEN solve ELSE [op |-> "A", t |-> t - 1, i |-> j - 1, M |-> TLCEval(al[Pick(1..Len(al))])]
     ELSE [op |-> "x", v |-> v - 1, d |-> TLCEval(Pick(0..1)), x |-> TLCEval(Rnd(cat.dims[v], -3, 3))]
Do(c) ==
  CASE c.op = "add" -> AddTask(c.k + 1, c.t + 1)
    [] c.op = "remove" -> RemoveTask(c.k + 1, c.t + 1)
    [] c.op = "weight" -> SetWeight(c.t + 1, c.w)
    [] c.op = "aweight" -> SetAWeight(c.t + 1, c.aw)
    [] c.op = "b" -> SetB(c.t + 1, c.b)
    [] c.op = "A" -> SetA(c.t + 1, c.i + 1, c.M)
    [] c.op = "x" -> SetX(c.v + 1, c.d, c.x)
    [] c.op = "solve" -> (IF MayRefuse(c.k + 1, c.s + 1) THEN Refused(c.k + 1, c.s + 1) ELSE Solve(c.k + 1, c.s + 1, c.sol))
InitR == hist = <<>> /\ fin = 0 /\ cat = Cats[1] /\ st = LInitSt(cat)
NextR ==
  \/ fin = 0 /\ fin' = 1 /\ (\E n \in {Pick(1..Len(Cats))} : cat' = Cats[n] /\ st' = LInitSt(Cats[n])) /\ UNCHANGED hist
  \/ fin = 1 /\ Len(hist) < Depth /\ (\E c \in {Cmd} : Do(c) /\ hist' = Append(hist, c)) /\ UNCHANGED <<cat, fin>>
  \/ fin = 1 /\ Len(hist) = Depth /\ fin' = 2 /\ PrintT("GEN " \o ToJson(<<cat, hist>>)) /\ UNCHANGED <<cat, st, hist>>
=============================================================================
