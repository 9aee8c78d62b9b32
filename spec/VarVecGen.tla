------------------------------ MODULE VarVecGen ------------------------------
EXTENDS VarVec, Json, TLC
CONSTANTS Depth, Small
VARIABLES cmd, hist, fin
C(o, v, w, p, q) == [op |-> o, v |-> v, w |-> w, p |-> p, q |-> q, x |-> <<>>]
Pick(X) == RandomElement({y \in X : fin >= 0})
RECURSIVE Vals(_)
Vals(n) == IF n = 0 THEN <<>> ELSE <<Pick(-9..9)>> \o Vals(n - 1)
RStep ==
  \E r \in {Pick(1..100)}, v \in {Pick(Vecs)}, w \in {Pick(Vecs)}, p \in {Pick(1..P)}, p2 \in {Pick(1..P)}, p3 \in {Pick(1..P)}, q \in {Pick(0..3)}, k \in {Pick(-1..4)} :
     IF r <= 30 THEN Add(v, p) /\ cmd' = C("add", v, w, p, q)
     ELSE IF r <= 36 THEN \E s \in {SubSeq(<<p, p2, p3>>, 1, (k + 1) % 4)} : AddList(v, s) /\ cmd' = [C("addl", v, w, 0, q) EXCEPT !.x = s]
     ELSE IF r <= 40 THEN AddVec(v, w) /\ cmd' = C("addv", v, w, 0, q)
     ELSE IF r <= 48 THEN AddIndex(v, p) /\ cmd' = C("addi", v, k % 2, p, q)
     ELSE IF r <= 58 THEN Rem(v, p) /\ cmd' = C("rm", v, w, p, q)
     ELSE IF r <= 68 THEN RemIdx(v, k) /\ cmd' = C("rmi", v, k, 0, q)
     ELSE IF r <= 69 THEN Clear(v) /\ cmd' = C("clear", v, w, 0, q)
     ELSE IF r <= 72 THEN Copy(v, w) /\ cmd' = C("copy", v, w, 0, q)
     ELSE IF r <= 76 THEN Copy(v, w) /\ cmd' = C("assign", v, w, 0, q)
     ELSE IF r <= 78 /\ v # w THEN Move(v, w) /\ cmd' = C("movec", v, w, 0, q)
     ELSE IF r <= 81 THEN Move(v, w) /\ cmd' = C("move", v, w, 0, q)
     ELSE IF r <= 84 THEN (IF \A j \in 1..Len(vec[w]) : Dot[vec[w][j]] > 0 THEN Dots(v, w) /\ cmd' = C("dot", v, w, 0, q) ELSE Nop /\ cmd' = C("nop", v, w, 0, q))
     ELSE IF r <= 90 THEN \E x \in {Vals(SumSz(vec[v]))} : SetAll(v, x) /\ cmd' = [C("set", v, w, 0, q) EXCEPT !.x = x]
     ELSE IF r <= 91 THEN ZeroAll(v) /\ cmd' = C("zero", v, w, 0, q)
     ELSE IF r <= 95 THEN \E x \in {Vals(Sz(p))} : SetOne(p, x) /\ cmd' = [C("setp", v, w, p, q) EXCEPT !.x = x]
     ELSE Nop /\ cmd' = C("nop", v, w, p, q)
InitR == VInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ RStep /\ hist' = Append(hist, cmd') /\ fin' = fin
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<vvars, cmd, hist>>
(* exhaustive: structure only *)
Step == \E v, w \in Vecs :
    \/ \E p \in Small : v = w /\ Add(v, p) /\ cmd' = C("add", v, w, p, 1)
    \/ \E p \in Small : v = w /\ AddIndex(v, p) /\ cmd' = C("addi", v, 0, p, 2)
    \/ \E p \in Small : v = w /\ Rem(v, p) /\ cmd' = C("rm", v, w, p, 2)
    \/ v = w /\ RemIdx(v, 0) /\ cmd' = C("rmi", v, 0, 0, 1)
    \/ AddVec(v, w) /\ cmd' = C("addv", v, w, 0, 1)
    \/ Copy(v, w) /\ cmd' = C("assign", v, w, 0, 2)
    \/ Move(v, w) /\ cmd' = C("move", v, w, 0, 1)
State == [v |-> vec]
InitG == VInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0 /\ PrintT("IN " \o ToJson(State))
NextG == Step /\ UNCHANGED <<hist, fin>>
PrintTr == PrintT("TR " \o ToJson(<<State, cmd', [v |-> vec']>>))
View == vec
=============================================================================
