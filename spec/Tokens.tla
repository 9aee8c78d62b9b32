------------------------------- MODULE Tokens -------------------------------
(* Pair tokens (PairElementToken) and callbacks identified by them (CallbackManager).

   Slots hold the tokens of the user: tok[i] is 0 (no token), Alone, a slot (the other token of the pair)
   or CB + c (paired with the entry of callback c of the manager). Everything a callback can do while it
   runs is a step of its own: frames is the stack of the runs in progress, in[c] the callback that
   is being executed by the run (0: none).                                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSlots, MaxCb
VARIABLE ts
Slots == 1..NSlots
Alone == 99
CB == 100
Exists(s, i) == s.tok[i] # 0
Paired(s, i) == s.tok[i] # 0 /\ s.tok[i] # Alone
Live(s, c) == \E k \in 1..Len(s.regs) : s.regs[k] = c
RECURSIVE Without(_, _)
Without(l, c) == IF l = <<>> THEN <<>> ELSE (IF Head(l) = c THEN <<>> ELSE <<Head(l)>>) \o Without(Tail(l), c)
LiveOnly(s, l) == SelectSeq(l, LAMBDA c : Live(s, c))
\* the other side of i, if any, is alone from now on; an entry left alone is released
Unlink(s, i) ==
  LET p == s.tok[i]
  IN IF p \in Slots THEN [s EXCEPT !.tok[p] = Alone, !.tok[i] = Alone]
     ELSE IF p > CB THEN [s EXCEPT !.regs = Without(@, p - CB), !.tok[i] = Alone]
     ELSE s
\* j's link goes to i (i alone or absent)
Transfer(s, i, j) ==
  LET p == s.tok[j]
      a == [s EXCEPT !.tok[i] = p, !.tok[j] = Alone]
  IN IF p \in Slots THEN [a EXCEPT !.tok[p] = i] ELSE a
(* ---- what can be done, and what it does *)
Enabled(s, c) ==
  CASE c.op = "construct" -> ~Exists(s, c.i)
    [] c.op = "destroy" -> Exists(s, c.i)
    [] c.op = "pair" -> Exists(s, c.i) /\ Exists(s, c.j)
    [] c.op = "movec" -> ~Exists(s, c.i) /\ Exists(s, c.j)
    [] c.op = "movea" -> Exists(s, c.i) /\ Exists(s, c.j)
    [] c.op = "handlec" -> ~Exists(s, c.i) /\ Exists(s, c.j) /\ ~Paired(s, c.j)
    [] c.op = "handlea" -> c.i # c.j /\ Exists(s, c.i) /\ Exists(s, c.j) /\ ~Paired(s, c.j)
    [] c.op = "register" -> s.nextc <= MaxCb
    [] c.op = "unregister" -> Exists(s, c.i)
    [] c.op = "run" -> Len(s.frames) < 3
    [] c.op = "newmgr" -> s.frames = <<>>
    [] c.op = "arm" -> TRUE
PairRefused(s, i, j) == Paired(s, i) \/ Paired(s, j) \/ i = j
UnregOk(s, i) == s.tok[i] > CB
\* keep: outcome of moving a token into itself, which may or may not release the pair
Apply(s, c, keep) ==
  CASE c.op = "construct" -> [s EXCEPT !.tok[c.i] = Alone]
    [] c.op = "destroy" -> [Unlink(s, c.i) EXCEPT !.tok[c.i] = 0]
    [] c.op = "pair" -> IF PairRefused(s, c.i, c.j) THEN s ELSE [s EXCEPT !.tok[c.i] = c.j, !.tok[c.j] = c.i]
    [] c.op = "movec" -> Transfer(s, c.i, c.j)
    [] c.op = "movea" -> IF c.i = c.j THEN IF keep THEN s ELSE Unlink(s, c.i) ELSE Transfer(Unlink(s, c.i), c.i, c.j)
    [] c.op \in {"handlec", "handlea"} ->
         LET a == IF Exists(s, c.i) THEN Unlink(s, c.i) ELSE s IN [a EXCEPT !.tok[c.i] = c.j, !.tok[c.j] = c.i]
    [] c.op = "register" ->
         LET a == IF Exists(s, c.i) THEN Unlink(s, c.i) ELSE s
         IN [a EXCEPT !.tok[c.i] = CB + a.nextc, !.regs = Append(@, a.nextc), !.nextc = @ + 1,
                      !.frames = [k \in 1..Len(a.frames) |-> [a.frames[k] EXCEPT !.opt = Append(@, a.nextc)]]]
    [] c.op = "unregister" -> IF UnregOk(s, c.i) THEN Unlink(s, c.i) ELSE s
    [] c.op = "run" -> [s EXCEPT !.frames = Append(@, [todo |-> s.regs, opt |-> <<>>, in |-> 0])]
    \* the manager is destroyed, and another one takes its place
    [] c.op = "newmgr" -> [s EXCEPT !.regs = <<>>, !.tok = [k \in Slots |-> IF s.tok[k] > CB THEN Alone ELSE s.tok[k]]]
    [] c.op = "arm" -> s
(* ---- a run: every callback registered when it starts and not released meanwhile, in the order of the
   registrations; those registered meanwhile may be run too, afterwards                                   *)
Top(s) == s.frames[Len(s.frames)]
Idle(s) == IF s.frames = <<>> THEN TRUE ELSE Top(s).in # 0 \* user code is executing
Todo(s) == LiveOnly(s, Top(s).todo)
RECURSIVE After(_, _)
After(l, c) == IF l = <<>> THEN <<>> ELSE IF Head(l) = c THEN Tail(l) ELSE After(Tail(l), c)
CanCall(s, c) ==
  /\ s.frames # <<>> /\ Top(s).in = 0 /\ Live(s, c)
  /\ IF Todo(s) # <<>> THEN Todo(s)[1] = c ELSE \E k \in 1..Len(Top(s).opt) : Top(s).opt[k] = c
Call(s, c) ==
  LET n == Len(s.frames)
  IN IF Todo(s) # <<>> THEN [s EXCEPT !.frames[n] = [todo |-> Tail(Todo(s)), opt |-> Top(s).opt, in |-> c]]
     ELSE [s EXCEPT !.frames[n] = [todo |-> <<>>, opt |-> After(Top(s).opt, c), in |-> c]]
CanReturn(s, c) == s.frames # <<>> /\ Top(s).in = c
Return(s, c) == [s EXCEPT !.frames[Len(s.frames)].in = 0]
\* a callback that throws ends its run; the registrations are as they were
Throw(s, c) == [s EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
CanEnd(s) == s.frames # <<>> /\ Top(s).in = 0 /\ Todo(s) = <<>>
End(s) == [s EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)]
TSt0 == [tok |-> [i \in Slots |-> 0], regs |-> <<>>, nextc |-> 1, frames |-> <<>>]
(* ---- checked on the model *)
Cmds == [op : {"construct", "destroy"}, i : Slots, j : {0}] \cup [op : {"pair", "movec", "movea", "handlec", "handlea"}, i : Slots, j : Slots]
        \cup [op : {"register", "unregister"}, i : Slots, j : {0}] \cup [op : {"run", "newmgr"}, i : {0}, j : {0}]
TNext0 ==
  \/ \E c \in Cmds, keep \in BOOLEAN : Idle(ts) /\ Enabled(ts, c) /\ ts' = Apply(ts, c, keep)
  \/ \E c \in 1..MaxCb : \/ CanCall(ts, c) /\ ts' = Call(ts, c)
                         \/ c # 0 /\ CanReturn(ts, c) /\ (ts' = Return(ts, c) \/ ts' = Throw(ts, c))
  \/ CanEnd(ts) /\ ts' = End(ts)
Symmetric == \A i \in Slots : ts.tok[i] \in Slots => ts.tok[i] # i /\ ts.tok[ts.tok[i]] = i
LinkedEntries ==
  /\ \A c \in 1..MaxCb : Live(ts, c) <=> \E i \in Slots : ts.tok[i] = CB + c
  /\ \A i, j \in Slots : i # j /\ ts.tok[i] > CB => ts.tok[i] # ts.tok[j]
  /\ \A k, l \in 1..Len(ts.regs) : k < l => ts.regs[k] < ts.regs[l]
=============================================================================
