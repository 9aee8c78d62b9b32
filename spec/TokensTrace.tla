----------------------------- MODULE TokensTrace -----------------------------
(* Recorded executions: each command records the steps it led to, with what the tokens look like after each. *)
EXTENDS Tokens, Json, IOUtils, TLC
VARIABLES tid, i, ok
Traces == ndJsonDeserialize(IOEnv.TRACES)
E(k) == Traces[tid].e[k]
\* the tokens as they can be observed: a token of the manager cannot be told from another
Seen(s) == [k \in Slots |-> IF s.tok[k] > CB THEN CB ELSE s.tok[k]]
Fail == [bad |-> TRUE]
Bad(s) == "bad" \in DOMAIN s
Upd(s, v) ==
  LET c == v.c IN
  CASE v.e = "do" -> IF ~Idle(s) \/ ~Enabled(s, c) THEN Fail
                     ELSE IF c.op = "pair" /\ v.r.exc # (IF PairRefused(s, c.i, c.j) THEN 1 ELSE 0) THEN Fail
                     ELSE IF c.op = "unregister" /\ v.r.exc # (IF UnregOk(s, c.i) THEN 0 ELSE 1) THEN Fail
                     ELSE IF c.op \notin {"pair", "unregister"} /\ v.r.exc # 0 THEN Fail
                     ELSE Apply(s, c, c.op = "movea" /\ c.i = c.j /\ v.t[c.i] = Seen(s)[c.i])
    [] v.e = "skip" -> IF Idle(s) /\ ~Enabled(s, c) THEN s ELSE Fail
    [] v.e = "cb" -> IF CanCall(s, c.i) THEN Call(s, c.i) ELSE Fail
    [] v.e = "ret" -> IF CanReturn(s, c.i) THEN Return(s, c.i) ELSE Fail
    [] v.e = "throw" -> IF CanReturn(s, c.i) THEN Throw(s, c.i) ELSE Fail
    [] v.e = "end" -> IF CanEnd(s) THEN End(s) ELSE Fail
RECURSIVE Play(_, _)
Play(s, log) ==
  IF log = <<>> \/ Bad(s) THEN s
  ELSE LET v == Head(log)
           n == Upd(s, v)
       IN IF ~Bad(n) /\ v.t # Seen(n) THEN Fail ELSE Play(n, Tail(log))
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ ok = TRUE /\ ts = TSt0
TNext ==
  \/ i < Len(Traces[tid].e) /\ i' = i + 1 /\ tid' = tid
     /\ \E n \in {IF "log" \in DOMAIN E(i + 1).r THEN Play(ts, E(i + 1).r.log) ELSE Fail} :
          IF Bad(n) \/ n.frames # <<>> THEN ok' = FALSE /\ ts' = ts ELSE ok' = ok /\ ts' = n
  \/ i = Len(Traces[tid].e) /\ UNCHANGED <<ts, tid, i, ok>>
Conforms == ok
SymmetricLinks == Symmetric /\ LinkedEntries
\* asked from both sides, isPairedWith and otherPairElement agree
Answers == i > 0 => \A a, b \in Slots : E(i).s.with[a][b] = (IF ts.tok[a] = b THEN 1 ELSE 0)
=============================================================================
