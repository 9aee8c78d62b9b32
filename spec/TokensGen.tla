------------------------------ MODULE TokensGen ------------------------------
(* Command sequences on tokens and callbacks: every transition of the tokens alone (InitG), every reaction of
   one or two steps of one callback among three (InitE), random histories (InitR).                         *)
EXTENDS Tokens, Json, TLC
CONSTANTS Depth
VARIABLES cmd, hist, fin
vars == <<ts, cmd, hist, fin>>
(* the model, with runs *)
InitM == ts = TSt0 /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextM == TNext0 /\ UNCHANGED <<cmd, hist, fin>>
ViewM == ts
(* exhaustive, without runs in progress *)
InitG == InitM /\ PrintT("IN " \o ToJson(ts))
NextG == (\E c \in Cmds : c.op # "run" /\ Enabled(ts, c) /\ cmd' = c /\ ts' = Apply(ts, c, FALSE)) /\ UNCHANGED <<hist, fin>>
PrintTr == PrintT("TR " \o ToJson(<<ts, cmd', ts'>>))
(* every reaction of one callback *)
C1(op, i) == [op |-> op, i |-> i, j |-> 0]
C2(op, i, j) == [op |-> op, i |-> i, j |-> j]
Reactions == {C1("register", 4), C1("register", 1), C1("register", 2), C1("run", 0), C1("throw", 0), C2("movec", 4, 1), C2("movec", 4, 2), C2("movea", 1, 2), C2("movea", 3, 1), C2("movea", 2, 2)}
             \cup {C1("destroy", i) : i \in 1..3} \cup {C1("unregister", i) : i \in 1..4}
Runs == <<C1("run", 0), C1("run", 0)>>
Prefix(c, acts) == <<C1("register", 1), C1("register", 2), C1("register", 3), [op |-> "arm", i |-> c, acts |-> acts]>> \o Runs \o <<C1("register", 4)>> \o Runs
InitE == InitM
NextE == fin = 0 /\ fin' = 1 /\ UNCHANGED <<ts, cmd>> /\ \E c \in 1..3, a, b \in Reactions :
            /\ a.op # "throw" \/ a = b
            /\ hist' = Prefix(c, IF a.op = "throw" THEN <<a>> ELSE <<a, b>>) /\ PrintT("GEN " \o ToJson(<<0, hist'>>))
(* random: the commands whose conditions do not hold are skipped by the driver *)
Pick(S) == RandomElement({x \in S : fin >= 0})
Rnd1 == LET r == TLCEval(Pick(1..100))
            i == TLCEval(Pick(Slots))
            j == TLCEval(Pick(Slots))
        IN IF r <= 8 THEN C1("construct", i) ELSE IF r <= 16 THEN C1("destroy", i) ELSE IF r <= 26 THEN C2("pair", i, j)
           ELSE IF r <= 34 THEN C2("movec", i, j) ELSE IF r <= 46 THEN C2("movea", i, j) ELSE IF r <= 50 THEN C2("handlec", i, j)
           ELSE IF r <= 54 THEN C2("handlea", i, j) ELSE IF r <= 74 THEN C1("register", i) ELSE IF r <= 84 THEN C1("unregister", i)
           ELSE IF r <= 85 THEN C1("newmgr", 0) ELSE C1("run", 0)
RArm == [op |-> "arm", i |-> TLCEval(Pick(1..MaxCb)), acts |-> TLCEval([k \in 1..Pick(1..4) |-> IF Pick(1..15) = 1 THEN C1("throw", 0) ELSE Rnd1])]
InitR == InitM
\* arms of callbacks that do not exist yet are kept for later
NextR ==
  \/ Len(hist) < Depth /\ (\E c \in {IF Pick(1..3) = 1 THEN RArm ELSE IF Pick(1..5) = 1 THEN C1("run", 0) ELSE Rnd1} : hist' = Append(hist, c)) /\ UNCHANGED <<ts, cmd, fin>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<ts, cmd, hist>>
=============================================================================
