----------------------------- MODULE ProblemGen -----------------------------
EXTENDS Problem, Json, TLC
CONSTANTS Depth, MaxQ, Groups
VARIABLES cmd, hist, fin
C1(o, k, t) == [op |-> o, k |-> k, t |-> t]
St(i, su, kn, qq) == [i |-> i, su |-> su, kn |-> kn, q |-> qq]
(* exhaustive, bounded queues *)
Step ==
  \/ \E k \in Ks, t \in Ts : Add(k, t) /\ cmd' = C1("add", k, t)
  \/ \E k \in Ks, t \in Ts : Remove(k, t) /\ cmd' = C1("rm", k, t)
  \/ \E t \in Ts, y \in {"w", "aw"} : Weight(y, t) /\ cmd' = C1(y, 0, t)
  \/ \E k \in Ks, x \in Groups : AddSub(k, x) /\ cmd' = [op |-> "sadd", k |-> k, x |-> x]
  \/ \E k \in Ks, x \in Groups : RemSub(k, x) /\ cmd' = [op |-> "srm", k |-> k, x |-> x]
  \/ \E k \in Ks, s \in Ss : Solve(k, s) /\ cmd' = C1("solve", k, s)
  \/ \E k \in Ks, s \in Ss : SolveFail(k, s) /\ cmd' = C1("solvex", k, s)
  \/ \E k \in Ks : k > 0 /\ Nop /\ cmd' = C1("addbad", k, 0)
  \/ \E k \in Ks : Nop /\ cmd' = C1("update", k, 0)
  \/ \E k \in Ks : Reset(k) /\ cmd' = C1("reset", k, 0)
  \/ \E k, j \in Ks : CopyFrom(k, j) /\ cmd' = C1("copy", k, j)
  \/ \E s \in Ss : NewScheme(s) /\ cmd' = C1("scheme", 0, s)
InitG == PInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0 /\ PrintT("IN " \o ToJson(St(in, subs, known, q)))
NextG == Step /\ UNCHANGED <<hist, fin>>
PrintTr == PrintT("TR " \o ToJson(<<St(in, subs, known, q), cmd', St(in', subs', known', q')>>))
Bound == \A k \in Ks, s \in Ss : Len(q[k][s]) <= MaxQ
BoundNext == \A k \in Ks, s \in Ss : Len(q'[k][s]) <= MaxQ
Con == BoundNext /\ PrintTr
View == pvars
(* random *)
Pick(X) == RandomElement({x \in X : fin >= 0})
CanAddSub(k, x) == k > 0 /\ \A t \in x : Has(k, t) /\ SubsOf(k, t) = {}
RStep ==
  \E r \in {Pick(1..100)}, k \in {Pick(Ks)}, t \in {Pick(Ts)}, s \in {Pick(Ss)}, g \in {Pick(Groups)} :
     IF r <= 22 /\ ~Has(k, t) THEN Add(k, t) /\ cmd' = C1("add", k, t)
     ELSE IF r <= 36 THEN Remove(k, t) /\ cmd' = C1("rm", k, t)
     ELSE IF r <= 40 /\ Has(k, t) /\ \A j \in Ks \ {k} : ~Has(j, t) THEN Remove(k, t) /\ cmd' = C1("rmlast", k, t)
     ELSE IF r <= 48 THEN Weight("w", t) /\ cmd' = C1("w", 0, t)
     ELSE IF r <= 54 THEN Weight("aw", t) /\ cmd' = C1("aw", 0, t)
     ELSE IF r <= 60 /\ CanAddSub(k, g) THEN AddSub(k, g) /\ cmd' = [op |-> "sadd", k |-> k, x |-> g]
     ELSE IF r <= 65 /\ g \in Rng(subs[k]) THEN RemSub(k, g) /\ cmd' = [op |-> "srm", k |-> k, x |-> g]
     ELSE IF r <= 67 /\ k > 0 THEN Nop /\ cmd' = C1("addbad", k, 0)
     ELSE IF r <= 73 THEN Nop /\ cmd' = C1("update", k, 0)
     ELSE IF r <= 75 /\ k > 0 /\ s \notin known[k] THEN SolveFail(k, s) /\ cmd' = C1("solvex", k, s)
     ELSE IF r <= 76 THEN Reset(k) /\ cmd' = C1("reset", k, 0)
     ELSE IF r <= 78 /\ k > 1 THEN CopyFrom(k, k - 1) /\ cmd' = C1("copy", k, k - 1)
     ELSE IF r <= 79 /\ k = 1 THEN CopyFrom(k, 0) /\ cmd' = C1("copy", k, 0)
     ELSE IF r <= 80 THEN NewScheme(s) /\ cmd' = C1("scheme", 0, s)
     ELSE IF k > 0 THEN Solve(k, s) /\ cmd' = C1("solve", k, s)
     ELSE Nop /\ cmd' = C1("update", k, 0)
InitR == PInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ RStep /\ hist' = Append(hist, cmd') /\ fin' = fin
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<pvars, cmd, hist>>
=============================================================================
