------------------------------ MODULE PropsGen ------------------------------
EXTENDS Props, Json
CONSTANTS CB    \* what the right operands say of being constant
VARIABLES left, done
Rights == {d \in Operands : d.c \in CB}
All == TLCEval(SetToSeq(Rights))
Bin(o) == [k \in 1..Len(All) |-> [op |-> o, a |-> left, b |-> All[k]]]
Un == <<[op |-> "neg", a |-> left]>> \o [k \in 1..9 |-> [op |-> "scale", f |-> k - 5, a |-> left]]
Orders == <<0, 7, 13, 23>>
Init == left \in Decls /\ done = 0
Next == done = 0 /\ done' = 1 /\ left' = left
        /\ PrintT("GEN " \o ToJson(<<0, [k \in 1..4 |-> [op |-> "decl", a |-> left, ord |-> Orders[k]]] \o (IF left \in Operands THEN Un \o Bin("add") \o Bin("sub") \o Bin("mul") ELSE <<>>)>>))
(* consistency of the sample: implications between declarations are not accidents of the sample *)
\* every class contains, or excludes, what it should
ASSUME /\ \A d \in Operands : Sat(d) # {}
        /\ Cardinality(SatOf[0][2][0]) > 5 /\ ~FDecl[Idx([sh |-> 0, po |-> 2, c |-> 2, v |-> 2])].q[5]
====
