------------------------------ MODULE UGraphGen ------------------------------
EXTENDS UGraph, Json, TLC
CONSTANTS Depth
VARIABLES cmd, hist, fin
Small == [op : {"int"}, n : Nodes, u : Us, v : Us] \cup [op : {"in"}, n : Nodes, u : Us, m : Sources \ {NNode + 1}, os : {<<o>> : o \in Os}, sh : {0}]
         \cup [op : {"out"}, n : Nodes, o : Os, u : Us] \cup [op : {"dir"}, n : Nodes, o : Os, m : Nodes, p : Os, sh : {0}]
         \cup [op : {"inp"}, i : 1..NInp, n : Nodes, os : {<<o>> : o \in Os}, sh : {0}] \cup [op : {"remo"}, i : 1..NInp, n : Nodes, os : {<<o>> : o \in Os}]
         \cup [op : {"add"}, g : Graphs, i : 1..NInp] \cup [op : {"upd", "exe", "clr"}, g : Graphs]
InitM == ug = USt0 /\ cmd = 0 /\ hist = <<>> /\ fin = 0
NextM == (\E c \in Small : Enabled(ug, c) /\ cmd' = c /\ ug' = Apply(ug, c)) /\ UNCHANGED <<hist, fin>>
ViewM == ug
InitG == InitM /\ PrintT("IN " \o ToJson(ug))
PrintTr == PrintT("TR " \o ToJson(<<ug, cmd', ug'>>))
(* every set of declarations, with some requests *)
Decls == [op : {"int"}, n : Nodes, u : Us, v : Us] \cup [op : {"in"}, n : Nodes, u : Us, m : Nodes, os : {<<o>> : o \in Os}, sh : {0}]
Ends == [Nodes \X Os -> {<<"none">>} \cup {<<"out", u>> : u \in Us} \cup {<<"dir", m, p>> : m \in Sources, p \in Os}]
EndCmd(n, o, e) == IF e[1] = "out" THEN [op |-> "out", n |-> n, o |-> o, u |-> e[2]] ELSE [op |-> "dir", n |-> n, o |-> o, m |-> e[2], p |-> e[3], sh |-> 1]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Ask(i, n, o) == <<[op |-> "inp", i |-> i, n |-> n, os |-> <<o>>, sh |-> 0], [op |-> "add", g |-> 1, i |-> i], [op |-> "upd", g |-> 1], [op |-> "exe", g |-> 1]>>
Asks == Ask(1, 1, 1) \o Ask(1, NNode, NO) \o <<[op |-> "clr", g |-> 1]>> \o Ask(2, NNode, NO)
RECURSIVE Play(_, _)
Play(s, q) == IF q = <<>> THEN [s |-> s, h |-> <<>>]
  ELSE IF ~Enabled(s, Head(q)) THEN Play(s, Tail(q))
  ELSE LET r == Play(Apply(s, Head(q)), Tail(q)) IN [s |-> r.s, h |-> <<Head(q)>> \o r.h]
NextE == fin = 0 /\ fin' = 1 /\ UNCHANGED cmd /\ \E D \in SUBSET Decls, e \in Ends :
          \E r \in {Play(USt0, SeqOf(D) \o SeqOf({EndCmd(x[1], x[2], e[x]) : x \in {x \in Nodes \X Os : e[x][1] # "none"}}) \o Asks)} :
            ug' = r.s /\ hist' = r.h /\ PrintT("GEN " \o ToJson(<<0, r.h>>))
(* random: declarations, then a history of inputs and graphs, then everything is cleared, and again *)
Pick(S) == RandomElement({x \in S : fin >= 0})
Os1(n) == TLCEval([k \in 1..Pick(1..2) |-> Pick(1..NO)])
\* mostly towards smaller nodes and updates, so that not everything is cyclic
Low(n, S) == IF Pick(1..20) = 1 THEN Pick(S) ELSE LET T == {x \in S : x <= n} IN IF T = {} THEN Pick(S) ELSE Pick(T)
Decl ==
  LET r == TLCEval(Pick(1..100)) n == TLCEval(Pick(Nodes)) o == TLCEval(Pick(Os)) u == TLCEval(Pick(Us))
  IN IF r <= 25 THEN [op |-> "int", n |-> n, u |-> u, v |-> LET l == u - 1 IN TLCEval(Low(l, Us))]
     ELSE IF r <= 60 THEN [op |-> "in", n |-> n, u |-> u, m |-> LET l == n - 1 IN TLCEval(IF Pick(1..9) = 1 THEN NNode + 1 ELSE Low(l, Sources)), os |-> Os1(n), sh |-> Pick(0..1)]
     ELSE IF r <= 85 THEN [op |-> "out", n |-> n, o |-> o, u |-> u]
     ELSE [op |-> "dir", n |-> n, o |-> o, m |-> LET l == n - 1 IN TLCEval(IF Pick(1..6) = 1 THEN NNode + 1 ELSE Low(l, Sources)), p |-> Pick(Os), sh |-> Pick(0..1)]
Act ==
  LET r == TLCEval(Pick(1..100)) i == TLCEval(Pick(1..NInp)) n == TLCEval(Pick(Sources)) g == TLCEval(Pick(Graphs))
  IN IF r <= 28 THEN [op |-> "inp", i |-> i, n |-> n, os |-> Os1(n), sh |-> Pick(0..1)]
     ELSE IF r <= 32 THEN [op |-> "rem", i |-> i, n |-> n]
     ELSE IF r <= 38 THEN [op |-> "remo", i |-> i, n |-> n, os |-> <<Pick(Os)>>]
     ELSE IF r <= 54 THEN [op |-> "add", g |-> g, i |-> IF Pick(1..6) = 1 THEN Pick(Inps) ELSE i]
     ELSE IF r <= 72 THEN [op |-> "upd", g |-> g]
     ELSE IF r <= 86 THEN [op |-> "exe", g |-> g]
     ELSE IF r <= 96 THEN [op |-> "gen", rs |-> TLCEval([k \in 1..Pick(1..3) |-> <<Pick(Sources), Pick(Os)>>])]
     ELSE [op |-> "clr", g |-> g]
Block == Depth \div 2
Cmd == LET k == Len(hist) % Block IN
  IF k < NGraph /\ Len(hist) > 0 THEN [op |-> "clr", g |-> k + 1] ELSE IF k < (IF Len(hist) < Block THEN 22 ELSE 12) THEN Decl ELSE Act
InitR == InitM
NextR ==
  \/ Len(hist) < Depth /\ (\E c \in {Cmd} : IF Enabled(ug, c) THEN ug' = Apply(ug, c) /\ hist' = Append(hist, c) ELSE ug' = ug /\ hist' = Append(hist, [op |-> "nop"])) /\ UNCHANGED <<cmd, fin>>
  \/ Len(hist) = Depth /\ fin = 0 /\ fin' = 1 /\ PrintT("GEN " \o ToJson(<<0, hist>>)) /\ UNCHANGED <<ug, cmd, hist>>
=============================================================================
