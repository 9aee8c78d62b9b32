------------------------------ MODULE VarsGen ------------------------------
EXTENDS Vars, Json, TLC
CONSTANTS Depth, MaxAtoms
VARIABLES cmd, hist, fin
C(o, s, h, n, m) == [op |-> o, s |-> s, h |-> h, n |-> n, m |-> m, x |-> <<>>]
CX(o, s, h, n, x) == [op |-> o, s |-> s, h |-> h, n |-> n, m |-> 0, x |-> x]
Pick(X) == RandomElement({y \in X : fin >= 0})
Vals(n) == [j \in 1..n |-> Pick(-9..9)]
Spaces == {<<"E1", "SO3">>, <<"SE3", "E2", "E1">>, <<"E2", "E1", "E1", "E2">>, <<"M", "E1", "SO3">>, <<"SO3", "M">>, <<"E1">>, <<"E2", "E1">>}
RStep ==
  \E r \in {Pick(1..100)}, s \in {Pick(Slots)}, h \in {Pick(IF \E q \in Slots : Live(q) THEN {q \in Slots : Live(q)} ELSE Slots)}, n \in {Pick(1..3)}, p \in {Pick(Spaces)}, i \in {Pick(1..4)}, j \in {Pick(1..5)} :
     IF (r <= 6 \/ ~Live(h)) /\ Len(roots) < MaxRoots THEN New(s, p) /\ cmd' = CX("new", s, 1, 0, p)
     ELSE IF ~Live(h) THEN UNCHANGED vvars /\ cmd' = C("nop", s, h, 0, 0)
     ELSE IF r <= 25 /\ hd[h][2] + n <= MaxD THEN Dot(s, h, n) /\ cmd' = C("dot", s, h, n, 0)
     ELSE IF r <= 33 THEN Prim(s, h, n) /\ cmd' = C("prim", s, h, n, 0)
     ELSE IF r <= 38 THEN BasePrim(s, h) /\ cmd' = C("base", s, h, 0, 0)
     ELSE IF r <= 42 THEN GetSuper(s, h) /\ cmd' = C("super", s, h, 0, 0)
     ELSE IF r <= 45 THEN GetSelf(s, h) /\ cmd' = C("self", s, h, 0, 0)
     ELSE IF r <= 65 /\ Len(roots) < MaxRoots /\ i <= j /\ i <= Len(Atoms(hd[h])) + 1 /\ (j <= Len(Atoms(hd[h])) + 1 \/ r <= 47)
          THEN Sub(s, h, i, j) /\ cmd' = C("sub", s, h, i, j)
     ELSE IF r <= 68 /\ Len(roots) < MaxRoots THEN Dup(s, h) /\ cmd' = C("dup", s, h, 0, 0)
     ELSE IF r <= 84 THEN \E x \in {Vals(Len_(hd[h]) + (IF r <= 70 THEN 1 ELSE 0))} : Set(h, x) /\ cmd' = CX("set", 1, h, 0, x)
     ELSE IF r <= 90 THEN \E x \in {Vals(n)}, k \in {Pick(0..4)} : SetSeg(h, k, x) /\ cmd' = CX("seg", 1, h, k, x)
     ELSE IF r <= 92 THEN Zero(h) /\ cmd' = C("zero", 1, h, 0, 0)
     ELSE Release(h) /\ cmd' = C("release", h, h, 0, 0)
InitR == VInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextR ==
  \/ Len(hist) < Depth /\ RStep /\ hist' = Append(hist, cmd') /\ fin' = fin
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<vvars, cmd, hist>>
(* exhaustive on a small world: structure only *)
Small == {<<"E1", "SO3">>}
Step ==
  \E s, h \in Slots :
    \/ roots = <<>> /\ h = 1 /\ \E p \in Small : New(s, p) /\ cmd' = CX("new", s, 1, 0, p)
    \/ Dot(s, h, 1) /\ cmd' = C("dot", s, h, 1, 0)
    \/ Live(h) /\ hd[h][2] <= 1 /\ Prim(s, h, 1) /\ cmd' = C("prim", s, h, 1, 0)
    \/ BasePrim(s, h) /\ cmd' = C("base", s, h, 0, 0)
    \/ GetSuper(s, h) /\ cmd' = C("super", s, h, 0, 0)
    \/ \E i, j \in 1..3 : Live(h) /\ SubOk(h, j) /\ Sub(s, h, i, j) /\ cmd' = C("sub", s, h, i, j)
    \/ s = 1 /\ MaxAtoms > 2 /\ Live(h) /\ Set(h, [k \in 1..Len_(hd[h]) |-> h]) /\ cmd' = CX("set", 1, h, 0, [k \in 1..Len_(hd[h]) |-> h])
    \/ s = h /\ Release(s) /\ cmd' = C("release", s, s, 0, 0)
St == [r |-> roots, v |-> val, h |-> hd]
InitG == VInit /\ cmd = 0 /\ hist = <<>> /\ fin = 0 /\ PrintT("IN " \o ToJson(St))
NextG == Step /\ UNCHANGED <<hist, fin>>
PrintTr == PrintT("TR " \o ToJson(<<St, cmd', [r |-> roots', v |-> val', h |-> hd']>>))
View == vvars
=============================================================================
