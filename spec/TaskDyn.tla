------------------------------ MODULE TaskDyn ------------------------------
(* Tasks (f, op, rhs, dynamics) and the linear constraint built for them:  J . x^(k)  op  d* - drift.
   f(x, y)_i = q_i x1 x2 + A_i . (x1, x2, y) + b_i  (q = 0: a linear function). Values are integers, results rationals <<n, d>>, d > 0. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE tk    \* [on, x, dx, ddx, ff, c (description of the task), mem (memory of the dampers), out (last computed outputs)]

Sides(ty) == IF ty = "D" THEN {1, 2} ELSE {1}
(* sides whose bound is asked for: only those are kept up to date *)
Req(c) == IF c.ty = "D" /\ c.full = 2 THEN {2} ELSE IF c.ty = "D" /\ c.full = 3 THEN {1} ELSE Sides(c.ty)
----------------------------------------------------------------------------
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
R(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
I(n) == <<n, 1>>
Add(a, b) == R(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Neg(a) == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == R(a[1] * b[1], a[2] * b[2])
Div(a, b) == R(a[1] * b[2], a[2] * b[1])
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
RMin(a, b) == IF Lt(b, a) THEN b ELSE a
RECURSIVE Dot(_, _, _)
Dot(f, g, n) == IF n = 0 THEN 0 ELSE f[n] * g[n] + Dot(f, g, n - 1)
----------------------------------------------------------------------------
(* the function, its derivatives *)
Lin(c) == c.lin = 1
FVal(s, r) == LET c == s.c x == s.x IN (IF Lin(c) THEN 0 ELSE c.q[r] * x[1] * x[2]) + Dot(c.A[r], x, 3) + c.b[r]
FVel(s, r) == LET c == s.c x == s.x d == s.dx IN (IF Lin(c) THEN 0 ELSE c.q[r] * (d[1] * x[2] + x[1] * d[2])) + Dot(c.A[r], d, 3)
FNor(s, r) == IF Lin(s.c) THEN 0 ELSE 2 * s.c.q[r] * s.dx[1] * s.dx[2]
FJac(s, r) == LET c == s.c x == s.x IN IF Lin(c) THEN c.A[r] ELSE <<c.A[r][1] + c.q[r] * x[2], c.A[r][2] + c.q[r] * x[1], c.A[r][3]>>
(* right-hand side of a side of the task *)
Rhs(c, sd, r) == LET v == IF sd = 1 THEN c.r1 ELSE c.r2 IN CASE c.rk = "n" -> 0 [] c.rk = "s" -> v[1] [] c.rk = "v" -> v[r]
(* gains *)
GV(g, r, v, m) == CASE g.k = "s" -> g.v * v[r] [] g.k = "v" -> g.v[r] * v[r] [] g.k = "m" -> Dot(g.v[r], v, m)
Sq(g, m) == CASE g.k = "s" -> [k |-> "s", v |-> g.v * g.v] [] g.k = "v" -> [k |-> "v", v |-> [r \in 1..m |-> g.v[r] * g.v[r]]]
              [] g.k = "m" -> [k |-> "m", v |-> [r \in 1..m |-> [t \in 1..m |-> Dot(g.v[r], [u \in 1..m |-> g.v[u][t]], m)]]]
Twice(g, m) == CASE g.k = "s" -> [k |-> "s", v |-> 2 * g.v] [] g.k = "v" -> [k |-> "v", v |-> [r \in 1..m |-> 2 * g.v[r]]]
                 [] g.k = "m" -> [k |-> "m", v |-> [r \in 1..m |-> [t \in 1..m |-> 2 * g.v[r][t]]]]
GFits(g, m) == CASE g.k = "s" -> TRUE [] g.k = "v" -> Len(g.v) = m [] g.k = "m" -> Len(g.v) = m /\ \A r \in 1..Len(g.v) : Len(g.v[r]) = m
----------------------------------------------------------------------------
(* dynamics: order, requested derivative for each side. Gains are kept per side: s.kp[sd], s.kv[sd]; limits s.lo[sd], s.hi[sd] *)
Order(td) == CASE td.k \in {"none", "const"} -> 0 [] td.k = "p" -> 1 [] td.k = "pd" -> 2 [] OTHER -> td.o
At(f, m, r) == IF Len(f) = 1 THEN f[1] ELSE f[r]    \* isotropic parameters
(* distance to the bound, and its sign *)
Sg(c, sd) == IF c.ty = "L" \/ (c.ty = "D" /\ sd = 2) THEN -1 ELSE 1
Dist(s, sd, r) == Sg(s.c, sd) * (FVal(s, r) - Rhs(s.c, sd, r))
(* memory of a damper: whether the bound is close, and the damping factor computed when it became so *)
Mem(s, sd, r) ==
  LET c == s.c td == c.td m == c.m o == s.mem[sd][r] d == Dist(s, sd, r) di == At(td.di, m, r) ds == At(td.ds, m, r) IN
  IF d > di THEN [o EXCEPT !.on = 0]
  ELSE IF o.on = 1 THEN o
  ELSE [on |-> 1, xsi |-> Add(Mul(R(-(di - ds), d - ds), I(Sg(c, sd) * FVel(s, r))), I(At(td.off, m, r)))]
Base(s, sd, r) ==
  LET c == s.c td == c.td m == c.m
      err == [t \in 1..m |-> FVal(s, t) - Rhs(c, sd, t)] vel == [t \in 1..m |-> FVel(s, t)] IN
  CASE td.k = "none" -> I(Rhs(c, sd, r) - c.b[r])
    [] td.k = "const" -> I(Rhs(c, sd, r))
    [] td.k = "p" -> I(-GV(s.kp[sd], r, err, m))
    [] td.k = "pd" -> I(-GV(s.kv[sd], r, vel, m) - GV(s.kp[sd], r, err, m))
    [] td.k = "os" -> IF td.o = 1 THEN I(-td.idt * err[r]) ELSE I(2 * td.idt * (-td.idt * err[r] - vel[r]))
    [] td.k = "ref" -> I(td.R[r][1] * s.z + td.R[r][2])
    [] td.k = "vd" ->
         LET d == Dist(s, sd, r) di == At(td.di, m, r) ds == At(td.ds, m, r) sg == Sg(c, sd)
             xsi == IF At(td.xsi, m, r) = 0 THEN s.mem[sd][r].xsi ELSE I(At(td.xsi, m, r))
             first == Mul(Neg(xsi), R(d - ds, di - ds))        \* lower bound on the derivative of the distance
             second == Mul(I(td.idt), Sub(first, I(sg * vel[r])))
         IN IF d > di THEN I(-sg * td.big) ELSE Mul(I(sg), IF td.o = 1 THEN first ELSE second)
(* wrappers, from the inside *)
Clamp(v, lo, hi, m) ==
  LET f(a, t) == IF Lt(I(hi[t]), v[t]) THEN RMin(a, Div(I(hi[t]), v[t])) ELSE IF Lt(v[t], I(lo[t])) THEN RMin(a, Div(I(lo[t]), v[t])) ELSE a
      g1 == f(I(1), 1) g2 == IF m >= 2 THEN f(g1, 2) ELSE g1 g3 == IF m >= 3 THEN f(g2, 3) ELSE g2
  IN [t \in 1..m |-> Mul(g3, v[t])]
RECURSIVE Wrap(_, _, _, _)
Wrap(s, sd, w, v) ==
  IF w = <<>> THEN v
  ELSE Wrap(s, sd, Tail(w), IF Head(w) = "ff" THEN [t \in 1..s.c.m |-> Add(v[t], I(s.ff[t]))] ELSE Clamp(v, s.lo[sd], s.hi[sd], s.c.m))
Requested(s, sd) == Wrap(s, sd, s.c.td.w, [r \in 1..s.c.m |-> Base(s, sd, r)])
(* the linear constraint *)
Bound(s, sd) == LET v == Requested(s, sd) IN [r \in 1..s.c.m |-> IF Order(s.c.td) = 2 THEN Sub(v[r], I(FNor(s, r))) ELSE v[r]]
CVal(s) == LET v == CASE Order(s.c.td) = 0 -> s.x [] Order(s.c.td) = 1 -> s.dx [] Order(s.c.td) = 2 -> s.ddx IN [r \in 1..s.c.m |-> Dot(FJac(s, r), v, 3)]
Auto(td) == td.k = "vd" /\ td.xsi[1] = 0
Run(s) ==
  LET c == s.c
      a == IF Auto(c.td) THEN [s EXCEPT !.mem = [sd \in Sides(c.ty) |-> IF sd \in Req(c) THEN [r \in 1..c.m |-> Mem(s, sd, r)] ELSE s.mem[sd]]] ELSE s
  IN [a EXCEPT !.out = [ran |-> 1, td |-> [sd \in Sides(c.ty) |-> Requested(a, sd)], bnd |-> [sd \in Sides(c.ty) |-> Bound(a, sd)],
                        jac |-> [r \in 1..c.m |-> FJac(a, r)], val |-> CVal(a)]]
----------------------------------------------------------------------------
(* what is refused *)
Has(td, w) == \E t \in 1..Len(td.w) : td.w[t] = w
RhsFits(c) == c.rk = "v" => Len(c.r1) = c.m /\ (c.how \in {"D", "PD"} => Len(c.r2) = c.m)
HowFits(c) == CASE c.how = "S" -> c.ty # "D" [] c.how = "D" -> c.ty = "D" [] OTHER -> TRUE
BadCfg(td) == td.k = "vd" /\ (\E t \in 1..Len(td.di) : td.di[t] <= td.ds[t] \/ td.ds[t] < 0 \/ td.xsi[t] < 0 \/ td.off[t] < 0)
MixAuto(td) == td.k = "vd" /\ (\E t \in 1..Len(td.xsi) : td.xsi[t] = 0) /\ (\E t \in 1..Len(td.xsi) : td.xsi[t] # 0)
TdOk(c) ==
  LET td == c.td m == c.m IN
  /\ td.k = "none" => Lin(c)
  /\ td.k = "const" => Lin(c)
  /\ td.k = "p" => GFits(td.g, m)
  /\ td.k = "vd" => ~BadCfg(td) /\ ~MixAuto(td) /\ td.idt >= 0 /\ td.big > 0 /\ Len(td.di) \in {1, m}
  /\ td.k = "os" => td.o \in {1, 2} /\ td.idt > 0
  /\ td.k = "ref" => td.nul = 0
  /\ Has(td, "ff") => td.ffn = m
  /\ Has(td, "cl") => (\A t \in 1..Len(td.lo) : td.lo[t] <= 0 /\ td.hi[t] >= 0) /\ (td.cf \in {"s", "p"} \/ Len(td.lo) = m)
MakeOk(c) == RhsFits(c) /\ HowFits(c) /\ TdOk(c)
TS0 == [on |-> 0, x |-> <<0, 0, 0>>, dx |-> <<0, 0, 0>>, ddx |-> <<0, 0, 0>>, ff |-> <<0, 0, 0>>, z |-> 0, out |-> [ran |-> 0]]
Make(s, c) ==
  LET td == c.td m == c.m sd == Sides(c.ty)
      kp == IF td.k \in {"p"} THEN td.g ELSE IF td.k = "pd" THEN (IF td.cd = 1 THEN Sq(td.g, m) ELSE td.g) ELSE [k |-> "s", v |-> 0]
      kv == IF td.k = "pd" THEN (IF td.cd = 1 THEN Twice(td.g, m) ELSE td.h) ELSE [k |-> "s", v |-> 0]
      cl == Has(td, "cl")
      ext(f) == [t \in 1..3 |-> IF t > m THEN 0 ELSE IF Len(f) = 1 THEN f[1] ELSE f[t]]
  IN [on |-> 1, x |-> s.x, dx |-> s.dx, ddx |-> s.ddx, ff |-> s.ff, z |-> s.z, c |-> c, out |-> [ran |-> 0],
      mem |-> [k \in sd |-> [r \in 1..m |-> [on |-> 0, xsi |-> I(0)]]],
      kp |-> [k \in sd |-> kp], kv |-> [k \in sd |-> kv],
      lo |-> [k \in sd |-> IF cl THEN ext(td.lo) ELSE <<0, 0, 0>>], hi |-> [k \in sd |-> IF cl THEN ext(td.hi) ELSE <<0, 0, 0>>]]
(* for the dampers with automatic parameter: not exactly at the safety distance when they become active *)
Singular(s) == Auto(s.c.td) /\ \E sd \in Req(s.c), r \in 1..s.c.m :
  LET d == Dist(s, sd, r) IN s.mem[sd][r].on = 0 /\ d <= At(s.c.td.di, s.c.m, r) /\ d = At(s.c.td.ds, s.c.m, r)
(* the constraint is built directly from the relation: its dynamics cannot be accessed *)
Hidden(c) == c.ltc = 1 /\ c.how \in {"P", "PD"}
TdEnabled(s, c) ==
  CASE c.op = "make" -> TRUE
    [] c.op \in {"x", "dx", "ddx", "z", "ff"} -> TRUE
    [] c.op = "b" -> s.on = 1 /\ Lin(s.c)
    [] c.op = "A" -> s.on = 1 /\ Lin(s.c)
    [] c.op = "gain" -> s.on = 1 /\ ~Hidden(s.c) /\ s.c.td.k \in {"p", "pd"} /\ c.sd \in Sides(s.c.ty) /\ (s.c.td.k = "p" => c.cd = 0)
                        /\ ((c.cd = 1 /\ c.g.k = "m") => GFits(c.g, s.c.m))
    [] c.op = "lim" -> s.on = 1 /\ ~Hidden(s.c) /\ Has(s.c.td, "cl") /\ c.sd \in Sides(s.c.ty)
    [] c.op = "cast" -> s.on = 1 /\ ~Hidden(s.c) /\ c.sd \in Sides(s.c.ty)
    [] c.op = "run" -> s.on = 1 /\ ~Singular(s)
    [] OTHER -> FALSE
Refused(s, c) ==
  CASE c.op = "make" -> ~MakeOk(c)
    [] c.op = "gain" -> ~GFits(c.g, s.c.m) \/ (s.c.td.k = "pd" /\ c.cd = 0 /\ ~GFits(c.h, s.c.m))
    [] c.op = "cast" -> c.k # s.c.td.k
    [] OTHER -> FALSE
TdApply(s, c) ==
  IF Refused(s, c) THEN s
  ELSE CASE c.op = "make" -> Make(s, c)
    [] c.op = "x" -> [s EXCEPT !.x = c.v] [] c.op = "dx" -> [s EXCEPT !.dx = c.v] [] c.op = "ddx" -> [s EXCEPT !.ddx = c.v]
    [] c.op = "z" -> [s EXCEPT !.z = c.v] [] c.op = "ff" -> [s EXCEPT !.ff = c.v]
    [] c.op = "b" -> [s EXCEPT !.c.b = c.v]
    [] c.op = "A" -> [s EXCEPT !.c.A = c.v]
    [] c.op = "gain" -> IF s.c.td.k = "p" THEN [s EXCEPT !.kp[c.sd] = c.g]
                        ELSE IF c.cd = 1 THEN [s EXCEPT !.kp[c.sd] = Sq(c.g, s.c.m), !.kv[c.sd] = Twice(c.g, s.c.m)]
                        ELSE [s EXCEPT !.kp[c.sd] = c.g, !.kv[c.sd] = c.h]
    [] c.op = "lim" -> [s EXCEPT !.lo[c.sd] = c.lo, !.hi[c.sd] = c.hi]
    [] c.op = "run" -> Run(s)
    [] OTHER -> s
TdAnswer(s, c) == IF Refused(s, c) THEN [exc |-> 1] ELSE IF c.op = "make" THEN [ok |-> 1, order |-> Order(c.td)] ELSE [ok |-> 1]
(* fits in the machine integers of TLC *)
SmallOut(s) == s.out.ran = 1 => \A sd \in Sides(s.c.ty), r \in 1..s.c.m : Abs(s.out.bnd[sd][r][1]) < 200000 /\ s.out.bnd[sd][r][2] < 4000
                                                                       /\ Abs(s.out.bnd[sd][r][1]) \div s.out.bnd[sd][r][2] < 100000
----------------------------------------------------------------------------
(* properties of the specification *)
Active == tk.on = 1 /\ tk.out.ran = 1
\* a clamped value that is not changed afterwards is within its bounds, and in the direction of the original
Within == Active /\ tk.c.td.w # <<>> /\ tk.c.td.w[Len(tk.c.td.w)] = "cl" =>
  LET a == Run(tk) IN \A sd \in Sides(tk.c.ty), r \in 1..tk.c.m : ~Lt(I(tk.hi[sd][r]), a.out.td[sd][r]) /\ ~Lt(a.out.td[sd][r], I(tk.lo[sd][r]))
\* updating twice with nothing changed gives the same result, also for the dampers
Again == Active /\ ~Singular(tk) => Run(Run(tk)).out = Run(tk).out
\* in two steps of length dt, a single step of length dt, brings a linear function on its target (order 1)
OneStep == Active /\ tk.c.td.k = "os" /\ tk.c.td.w = <<>> /\ tk.c.td.o = 1 =>
  LET a == Run(tk) IN \A sd \in Sides(tk.c.ty), r \in 1..tk.c.m : Add(I(FVal(tk, r)), Mul(R(1, tk.c.td.idt), a.out.td[sd][r])) = I(Rhs(tk.c, sd, r))
=============================================================================
