------------------------------ MODULE Counting ------------------------------
(* Counted parts of variables: every addition covers some consecutive atoms lo..hi-1 of a
   super-variable k ("key"), every removal uncovers some.  What is reported is what is covered at
   least once: as maximal parts (joined), or as parts that no addition cuts (split).             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, MaxOps
VARIABLES cnt,    \* cnt[k][p]: number of additions covering atom p
          live,   \* live[k]: sequence of the windows added and not removed, meaningful if exact[k]
          exact,  \* exact[k]: since k was last empty, only windows that had been added were removed
          used,   \* used[k]: the positions at which an addition or removal begun or ended since k was last empty
          adds,   \* adds[k]: the windows added since k was last empty
          chg,    \* chg[k]: how many of these changed the result, -1 if there was a removal
          held    \* held[k]: the user still holds the variable
cvars == <<cnt, live, exact, used, adds, chg, held>>
(* sizes of the atoms of each key *)
Dim == << <<1, 4, 2, 2>>, <<1, 3, 2, 3>>, <<1, 1, 1>> >>
N(k) == Len(Dim[k])
Pos(k) == 1..N(k)
Windows(k) == {<<lo, hi>> \in (1..N(k)) \X (1..(N(k) + 1)) : lo < hi}
RECURSIVE Sum(_, _)
Sum(k, p) == IF p = 0 THEN 0 ELSE Dim[k][p] + Sum(k, p - 1)
Covers(w, p) == w[1] <= p /\ p < w[2]
Zero(k) == [p \in Pos(k) |-> 0]
CInit == /\ cnt = [k \in Keys |-> Zero(k)] /\ live = [k \in Keys |-> <<>>] /\ exact = [k \in Keys |-> TRUE]
         /\ used = [k \in Keys |-> {}] /\ adds = [k \in Keys |-> {}] /\ chg = [k \in Keys |-> 0] /\ held = [k \in Keys |-> TRUE]
(* maximal covered windows of a count *)
Runs(c) == {w \in (DOMAIN c) \X (1..(Len(c) + 1)) :
              /\ w[1] < w[2]
              /\ \A p \in DOMAIN c : Covers(w, p) => c[p] > 0
              /\ (w[1] = 1 \/ c[w[1] - 1] = 0)
              /\ (w[2] = Len(c) + 1 \/ c[w[2]] = 0)}
Empty(k) == \A p \in Pos(k) : cnt[k][p] = 0
Plus(c, w) == [p \in DOMAIN c |-> c[p] + IF Covers(w, p) THEN 1 ELSE 0]
Minus(c, w) == [p \in DOMAIN c |-> c[p] - IF Covers(w, p) THEN 1 ELSE 0]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxCount(k) == Max({cnt[k][p] : p \in Pos(k)})
---------------------------------------------------------------------------
AddChanges(k, w) == Runs(Plus(cnt[k], w)) # Runs(cnt[k])
Add(k, w) ==
  /\ held' = [held EXCEPT ![k] = TRUE]
  /\ IF w[1] = w[2] THEN UNCHANGED <<cnt, live, exact, used, adds, chg>>
     ELSE /\ cnt' = [cnt EXCEPT ![k] = Plus(@, w)]
          /\ live' = [live EXCEPT ![k] = Append(@, w)]
          /\ used' = [used EXCEPT ![k] = @ \cup {w[1], w[2]}]
          /\ adds' = [adds EXCEPT ![k] = @ \cup {w}]
          /\ chg' = [chg EXCEPT ![k] = IF @ >= 0 /\ AddChanges(k, w) THEN @ + 1 ELSE @]
          /\ UNCHANGED exact
RemOk(k, w) == \A p \in Pos(k) : Covers(w, p) => cnt[k][p] > 0
RemChanges(k, w) == RemOk(k, w) /\ Runs(Minus(cnt[k], w)) # Runs(cnt[k])
RemoveOne(l, w) == LET j == CHOOSE j \in 1..Len(l) : l[j] = w IN SubSeq(l, 1, j - 1) \o SubSeq(l, j + 1, Len(l))
In(l, w) == \E j \in 1..Len(l) : l[j] = w
Remove(k, w) ==
  /\ w[1] < w[2]
  /\ held' = [held EXCEPT ![k] = TRUE]
  /\ IF ~RemOk(k, w) THEN UNCHANGED <<cnt, live, exact, used, adds, chg>>
     ELSE LET c == Minus(cnt[k], w)
              gone == \A p \in Pos(k) : c[p] = 0
          IN /\ cnt' = [cnt EXCEPT ![k] = c]
             /\ exact' = [exact EXCEPT ![k] = gone \/ (@ /\ In(live[k], w))]
             /\ live' = [live EXCEPT ![k] = IF gone THEN <<>> ELSE IF In(@, w) THEN RemoveOne(@, w) ELSE @]
             /\ used' = [used EXCEPT ![k] = IF gone THEN {} ELSE @ \cup {w[1], w[2]}]
             /\ adds' = [adds EXCEPT ![k] = IF gone THEN {} ELSE @]
             /\ chg' = [chg EXCEPT ![k] = IF gone THEN 0 ELSE IF RemChanges(k, w) THEN -1 ELSE @]
(* removal of parts of two different keys: both or none *)
RemBothOk(k, w, k2, w2) == RemOk(k, w) /\ RemOk(k2, w2)
RemoveBoth(k, w, k2, w2) ==
  /\ k # k2 /\ w[1] < w[2] /\ w2[1] < w2[2]
  /\ held' = [held EXCEPT ![k] = TRUE, ![k2] = TRUE]
  /\ IF ~RemBothOk(k, w, k2, w2) THEN UNCHANGED <<cnt, live, exact, used, adds, chg>>
     ELSE LET X(a) == IF a = k THEN w ELSE w2
              T == {k, k2}
              c == [a \in Keys |-> IF a \in T THEN Minus(cnt[a], X(a)) ELSE cnt[a]]
              gone(a) == \A p \in Pos(a) : c[a][p] = 0
          IN /\ cnt' = c
             /\ exact' = [a \in Keys |-> IF a \in T THEN gone(a) \/ (exact[a] /\ In(live[a], X(a))) ELSE exact[a]]
             /\ live' = [a \in Keys |-> IF a \notin T THEN live[a] ELSE IF gone(a) THEN <<>> ELSE IF In(live[a], X(a)) THEN RemoveOne(live[a], X(a)) ELSE live[a]]
             /\ used' = [a \in Keys |-> IF a \notin T THEN used[a] ELSE IF gone(a) THEN {} ELSE used[a] \cup {X(a)[1], X(a)[2]}]
             /\ adds' = [a \in Keys |-> IF a \notin T THEN adds[a] ELSE IF gone(a) THEN {} ELSE adds[a]]
             /\ chg' = [a \in Keys |-> IF a \notin T THEN chg[a] ELSE IF gone(a) THEN 0 ELSE IF RemChanges(a, X(a)) THEN -1 ELSE chg[a]]
Clear ==
  /\ cnt' = [k \in Keys |-> Zero(k)] /\ live' = [k \in Keys |-> <<>>] /\ exact' = [k \in Keys |-> TRUE]
  /\ used' = [k \in Keys |-> {}] /\ adds' = [k \in Keys |-> {}] /\ chg' = [k \in Keys |-> 0] /\ UNCHANGED held
(* the user forgets the variable; a later command on the key uses the one that is still counted, or a new one *)
Drop(k) == k = 3 /\ held' = [held EXCEPT ![k] = FALSE] /\ UNCHANGED <<cnt, live, exact, used, adds, chg>>
Query == UNCHANGED cvars
(* iteration over a sequence of windows <<k, lo, hi>> cut by the split parts: allowed when no part overlaps an end *)
IterOk(ws) == \A j \in 1..Len(ws) : LET k == ws[j][1] IN
                /\ exact[k] /\ ws[j][2] < ws[j][3] => In(live[k], <<ws[j][2], ws[j][3]>>)
                /\ ws[j][2] < ws[j][3] => exact[k]
Iter(ws) == IterOk(ws) /\ UNCHANGED cvars
---------------------------------------------------------------------------
(* what may be reported *)
JoinedOk(k, ws) == {ws[j] : j \in 1..Len(ws)} = Runs(cnt[k]) /\ \A j \in 1..(Len(ws) - 1) : ws[j][2] < ws[j + 1][1]
(* cut positions of a sequence of windows *)
Ends(ws) == {ws[j][1] : j \in 1..Len(ws)} \cup {ws[j][2] : j \in 1..Len(ws)}
SplitOk(k, ws) ==
  /\ \A j \in 1..Len(ws) : ws[j][1] < ws[j][2]
  /\ \A j \in 1..(Len(ws) - 1) : ws[j][2] <= ws[j + 1][1]
  /\ \A p \in Pos(k) : (cnt[k][p] > 0) <=> \E j \in 1..Len(ws) : Covers(ws[j], p)
  /\ \A j \in 1..Len(ws) : \A p, q \in Pos(k) : Covers(ws[j], p) /\ Covers(ws[j], q) => cnt[k][p] = cnt[k][q]
  /\ exact[k] => \A j \in 1..Len(live[k]) : live[k][j][1] \in Ends(ws) /\ live[k][j][2] \in Ends(ws)
  /\ Ends(ws) \subseteq used[k]
SimpleOk(k, ws, simple) ==
  /\ \A j \in 1..Len(ws) : simple[j] => ws[j] \in adds[k]
  /\ chg[k] >= 0 /\ chg[k] = Len(ws) => \A j \in 1..Len(ws) : simple[j]
---------------------------------------------------------------------------
TypeOk == \A k \in Keys : \A p \in Pos(k) : cnt[k][p] >= 0
\* as long as only what was added is removed, the count is the number of live additions
Multiset == \A k \in Keys : exact[k] => \A p \in Pos(k) : cnt[k][p] = Cardinality({j \in 1..Len(live[k]) : Covers(live[k][j], p)})
\* the finest partition the structure may report is allowed, and the joined one is coarser than any split one
Feasible == \A k \in Keys : \A w \in Runs(cnt[k]) : exact[k] => w[1] \in used[k] /\ w[2] \in used[k]
=============================================================================
