------------------------------- MODULE Ranges -------------------------------
(* Integer ranges [start, start + dim).  The specification enumerates every pair of small ranges;
   non-empty ranges obey the algebra of the sets of integers they denote, an empty range counts as
   located at its start.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Starts, Dims
VARIABLES tid, i
Set(r) == r[1]..(r[1] + r[2] - 1)
ContainsI(r, x) == x \in Set(r)
Contains(r, s) == IF s[2] > 0 THEN Set(s) \subseteq Set(r) ELSE s[1] \in Set(r)
\* an empty range intersects a range it is located in; two empty ranges do not intersect
Intersects(r, s) == IF r[2] > 0 /\ s[2] > 0 THEN Set(r) \cap Set(s) # {} ELSE s[1] \in Set(r) \/ r[1] \in Set(s)
Equal(r, s) == r = s
All == Starts \X Dims
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(n) == Traces[tid].e[n]
TInit == tid \in 1..Len(Traces) /\ i = 0
TNext == \/ (i < Len(Traces[tid].e) /\ i' = i + 1 /\ UNCHANGED tid)
         \/ (i = Len(Traces[tid].e) /\ UNCHANGED <<tid, i>>)
Pairs == i > 0 => LET c == E(i).c  o == E(i).r IN
   \A j \in 1..Len(c.l) : LET r == c.r  s == c.l[j]  a == o.a[j] IN
     /\ a.eq = Equal(r, s) /\ a.ne = ~Equal(r, s)
     /\ a.ct = Contains(r, s) /\ a.it = Intersects(r, s) /\ a.ti = Intersects(s, r)
     /\ a.ci = ContainsI(r, s[1])
     /\ a.end = r[1] + r[2]
     /\ a.sh = <<r[1] + s[1], r[2]>> /\ a.mi = <<r[1] - s[1], r[2]>>
     /\ Contains(r, s) => a.rel = <<s[1] - r[1], s[2]>> /\ Set(<<a.rel[1] + r[1], a.rel[2]>>) = Set(s)
(* laws of the model *)
Laws == tid = 1 /\ i = 0 => \A r, s \in All :
     /\ Intersects(r, s) = Intersects(s, r)
     /\ r[2] > 0 => Contains(r, r)
     /\ Contains(r, s) /\ s[2] > 0 => Intersects(r, s)
     /\ Contains(r, s) /\ Contains(s, r) => r = s
     /\ \A t \in All : Contains(r, s) /\ Contains(s, t) => Contains(r, t)
StartsDef == -3..4
=============================================================================
