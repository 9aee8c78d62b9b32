------------------------------- MODULE ReqsGen -------------------------------
EXTENDS Reqs, Json, TLC
CONSTANTS Depth
VARIABLES cmd, hist, fin
Small == {c \in [op : {"set", "seteq", "reset"}, o : Objs, k : Kinds, v : Vals] : c.op # "reset" \/ c.v = 1}
         \cup [op : {"from"}, o : Objs, o2 : Objs, k : Kinds] \cup [op : {"full", "copy", "assign"}, o : Objs, o2 : Objs]
         \cup [op : {"drop"}, o : Objs] \cup [op : {"reg"}, o : Objs, k : Kinds] \cup [op : {"rel"}, c : 1..MaxCb]
         \cup [op : {"build"}, o : Objs, t : {"l", "n"}, na : {0}, args : {<<>>} \cup {<<<<k, v>>>> : k \in Kinds, v \in Vals}]
InitM == rq = RSt0 /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextM == (\E c \in Small : Enabled(rq, c) /\ cmd' = c /\ rq' = Apply(rq, c)) /\ UNCHANGED <<hist, fin>>
ViewM == rq
InitG == InitM /\ PrintT("IN " \o ToJson(rq))
PrintTr == PrintT("TR " \o ToJson(<<rq, cmd', rq'>>))
(* every order of every choice of requirements, light or not, from light ones or not *)
Injective(f, n) == \A a, b \in 1..n : a # b => f[a] # f[b]
Orders == UNION {{f \in [1..n -> 1..4] : Injective(f, n)} : n \in 0..4}
ValOf(k, j) == CASE k = 1 -> <<2, 0, -1>>[j] [] k = 2 -> <<3, 1, -2>>[j] [] k = 3 -> <<2, 3, -1>>[j] [] k = 4 -> <<0, 1, 2>>[j]
NextE == fin = 0 /\ fin' = 1 /\ UNCHANGED <<rq, cmd>> /\ \E f \in Orders, t \in {"l", "n"}, na \in {0, 1}, j \in 1..3 :
           /\ hist' = <<[op |-> "build", o |-> 1, t |-> t, na |-> na, args |-> [a \in 1..Len(f) |-> <<f[a], ValOf(f[a], IF j = 3 /\ a < Len(f) THEN 1 ELSE j)>>]],
                        [op |-> "drop", o |-> 1]>>
           /\ PrintT("GEN " \o ToJson(<<0, hist'>>))
(* random *)
Pick(S) == RandomElement({x \in S : fin >= 0})
Val(k) == TLCEval(CASE k = 1 -> Pick(0..4) [] k = 2 -> Pick(0..6) [] k = 3 -> Pick(1..5) [] k = 4 -> Pick(0..2))
Cmd ==
  LET r == TLCEval(Pick(1..100))
      o == TLCEval(Pick(Objs))
      o2 == TLCEval(Pick(Objs))
      k == TLCEval(Pick(1..4))
      f == TLCEval(Pick(Orders))
  IN IF ~Exists(rq, o) /\ r <= 60 THEN [op |-> "build", o |-> o, t |-> Pick({"l", "n"}), na |-> Pick({0, 1}), args |-> TLCEval([a \in 1..Len(f) |-> <<f[a], Val(f[a])>>])]
     ELSE IF r <= 20 THEN [op |-> Pick({"set", "seteq"}), o |-> o, k |-> k, v |-> Val(k)]
     ELSE IF r <= 25 THEN [op |-> "reset", o |-> o, k |-> k]
     ELSE IF r <= 40 THEN [op |-> "from", o |-> o, o2 |-> o2, k |-> k]
     ELSE IF r <= 50 THEN [op |-> "full", o |-> o, o2 |-> o2]
     ELSE IF r <= 55 THEN [op |-> "copy", o |-> o, o2 |-> o2]
     ELSE IF r <= 60 THEN [op |-> "assign", o |-> o, o2 |-> o2]
     ELSE IF r <= 65 THEN [op |-> "drop", o |-> o]
     ELSE IF r <= 85 THEN [op |-> "reg", o |-> o, k |-> k]
     ELSE IF r <= 90 THEN [op |-> "rel", c |-> Pick(1..MaxCb)]
     ELSE [op |-> Pick({"set", "seteq"}), o |-> o, k |-> Pick({2, 3}), v |-> Pick(1..5)]
InitR == InitM
NextR ==
  \/ Len(hist) < Depth /\ (\E c \in {Cmd} : IF Enabled(rq, c) THEN rq' = Apply(rq, c) /\ hist' = Append(hist, c) ELSE UNCHANGED <<rq, hist>>) /\ UNCHANGED <<cmd, fin>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<rq, cmd, hist>>
=============================================================================
