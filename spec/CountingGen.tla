----------------------------- MODULE CountingGen -----------------------------
EXTENDS Counting, Json, TLC
CONSTANTS Depth
VARIABLES cmd, hist, fin
C(o, k, w, q) == [op |-> o, k |-> k, lo |-> w[1], hi |-> w[2], q |-> q, k2 |-> 0, lo2 |-> 0, hi2 |-> 0, ws |-> <<>>]
C2(o, k, w, k2, w2, q) == [op |-> o, k |-> k, lo |-> w[1], hi |-> w[2], q |-> q, k2 |-> k2, lo2 |-> w2[1], hi2 |-> w2[2], ws |-> <<>>]
Pick(X) == RandomElement({y \in X : fin >= 0})
CI(ws, q) == [C("iter", 1, <<1, 1>>, q) EXCEPT !.ws = ws]
CONSTANT Iters
Ends2(k) == {<<k, live[k][j][1], live[k][j][2]>> : j \in 1..Len(live[k])}
Avail == {<<1, 2, 2>>} \cup UNION {IF exact[k] THEN Ends2(k) ELSE {} : k \in Keys}
RStep ==
  \E r \in {Pick(1..100)}, k \in {Pick(Keys)}, q \in {Pick(0..3)}, e \in {Pick(1..100)} :
  \E w \in {Pick(Windows(k))} :
     IF r <= Iters THEN \E n \in {Pick(0..4)}, a \in {Pick(Avail)}, b \in {Pick(Avail)}, c \in {Pick(Avail)}, d \in {Pick(Avail)} :
            Iter(SubSeq(<<a, b, c, d>>, 1, n)) /\ cmd' = CI(SubSeq(<<a, b, c, d>>, 1, n), 1 + (q % 2))
     ELSE IF r <= 4 THEN Add(k, <<w[1], w[1]>>) /\ cmd' = C("add", k, <<w[1], w[1]>>, q)
     ELSE IF r <= 45 /\ MaxCount(k) < 4 THEN Add(k, w) /\ cmd' = C("add", k, w, q)
     ELSE IF r <= 80 /\ live[k] # <<>> THEN \E j \in {Pick(1..Len(live[k]))} : Remove(k, live[k][j]) /\ cmd' = C("rm", k, live[k][j], q)
     ELSE IF r <= 87 THEN \E k2 \in {Pick(Keys \ {k})} : \E w2 \in {Pick(Windows(k2))} :
            \E x \in {IF live[k] # <<>> THEN live[k][Len(live[k])] ELSE w}, x2 \in {IF live[k2] # <<>> /\ e < 70 THEN live[k2][1] ELSE w2} :
              RemoveBoth(k, x, k2, x2) /\ cmd' = C2("rmv", k, x, k2, x2, q)
     ELSE IF r <= 92 THEN Remove(k, w) /\ cmd' = C("rm", k, w, q)
     ELSE IF r <= 93 THEN Clear /\ cmd' = C("clear", 1, <<1, 1>>, q)
     ELSE IF r <= 95 THEN Drop(3) /\ cmd' = C("drop", 3, <<1, 1>>, q)
     ELSE Query /\ cmd' = C("query", 1, <<1, 1>>, q)
InitR == CInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ RStep /\ hist' = Append(hist, cmd') /\ fin' = fin
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<cvars, cmd, hist>>
(* exhaustive: every way to have at most MaxOps additions on one key *)
Step == \E k \in Keys : \E w \in Windows(k) :
    \/ Len(live[k]) < MaxOps /\ exact[k] /\ Add(k, w) /\ cmd' = C("add", k, w, 1)
    \/ Remove(k, w) /\ (exact[k] => Len(live[k]) <= MaxOps) /\ cmd' = C("rm", k, w, 2)
St == [c |-> cnt, l |-> live, e |-> exact]
InitG == CInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0 /\ PrintT("IN " \o ToJson(St))
NextG == Step /\ UNCHANGED <<hist, fin>>
PrintTr == PrintT("TR " \o ToJson(<<St, cmd', [c |-> cnt', l |-> live', e |-> exact']>>))
View == <<cnt, live, exact>>
=============================================================================
