------------------------------- MODULE OutsGen -------------------------------
EXTENDS Outs, Json, TLC
CONSTANTS Depth
VARIABLES cmd, hist, fin
Small == {[op |-> o, x |-> 1, l |-> l, ps |-> <<p>>] : o \in {"en", "dis"}, l \in 1..2, p \in 1..7}
         \cup {[op |-> o, x |-> 1] : o \in {"lock", "unlock"}} \cup {[op |-> "dep", d |-> d, x |-> 1, ps |-> <<p>>, how |-> h] : d \in 1..NCon, p \in 1..7, h \in 0..3}
         \cup {[op |-> "rej", x |-> 1, p |-> p] : p \in 1..7}
InitM == ou = OSt0 /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextM == ( \/ ~Exists(ou, 1) /\ \E k \in Classes : cmd' = [op |-> "new", x |-> 1, k |-> k] /\ ou' \in Results(ou, cmd')
           \/ Exists(ou, 1) /\ \E c \in Small : Enabled(ou, c) /\ cmd' = c /\ ou' \in Results(ou, c) ) /\ UNCHANGED <<hist, fin>>
ViewM == ou
InitG == InitM /\ PrintT("IN " \o ToJson(ou))
PrintTr == PrintT("TR " \o ToJson(<<ou, cmd', ou'>>))
Pick(S) == RandomElement({x \in S : fin >= 0})
Cmd ==
  LET r == TLCEval(Pick(1..100)) x == TLCEval(Pick(Objs)) y == TLCEval(Pick(Objs))
      q == TLCEval(IF Exists(ou, x) THEN Outs(ou, x) ELSE {1})
      ps == TLCEval([j \in 1..Pick({1, 1, 2, 3}) |-> Pick(q)])
      l == TLCEval(IF Exists(ou, x) /\ Layers(ou.o[x].k) # <<>> THEN Pick(1..Len(Layers(ou.o[x].k))) ELSE 1)
  IN IF ~Exists(ou, x) /\ r <= 85 THEN [op |-> "new", x |-> x, k |-> Pick(Classes)]
     ELSE IF r <= 20 THEN [op |-> "en", x |-> x, l |-> l, ps |-> ps]
     ELSE IF r <= 45 THEN [op |-> "dis", x |-> x, l |-> l, ps |-> ps]
     ELSE IF r <= 50 THEN [op |-> "lock", x |-> x]
     ELSE IF r <= 57 THEN [op |-> "unlock", x |-> x]
     ELSE IF r <= 63 THEN [op |-> "rej", x |-> x, p |-> Pick(q)]
     ELSE IF r <= 90 THEN [op |-> "dep", d |-> Pick(1..NCon), x |-> x, ps |-> ps, how |-> Pick(0..3)]
     ELSE IF r <= 96 THEN [op |-> "copy", x |-> x, y |-> y]
     ELSE [op |-> "del", x |-> x]
InitR == InitM
NextR ==
  \/ Len(hist) < Depth /\ (\E c \in {Cmd} : IF Enabled(ou, c) THEN ou' \in Results(ou, c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<ou, hist>>) /\ UNCHANGED <<cmd, fin>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<ou, cmd, hist>>
=============================================================================
