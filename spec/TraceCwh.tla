------------------------------- MODULE TraceCwh -------------------------------
(* Observations of ready-made modules (values in 1/100000) judged by the documented functions. *)
EXTENDS Cwh, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
VARIABLES t, l
vars == <<t, l>>
Init == t \in 1..Len(Traces) /\ l = 1
C(cond, name) == IF cond THEN {} ELSE {name}
Tol(w) == 100 + Abs(w) \div 1000
Sun(c, x) == IF c.fam = "inspn" THEN x[Len(x)] ELSE x[7]
Family(c) == CASE c.fam = "int" -> <<"rel_vel">>
               [] c.fam = "dock" -> IF c.P.dim = 2 THEN <<"rel_vel", "x_vel", "y_vel">> ELSE <<"rel_vel", "x_vel", "y_vel", "z_vel">>
               [] OTHER -> <<>>
Axis(name) == CASE name = "x_vel" -> 1 [] name = "y_vel" -> 2 [] name = "z_vel" -> 3
\* documented value of a constraint
Val(c, ev) ==
    LET P == c.P  x == ev.x IN
    CASE c.fam = "int" -> IF c.kind \in {"es", "ea"} THEN StopDist(x) ELSE -x[1]
      [] ev.base = "rel_vel" -> RelVel(P, x)
      [] ev.base \in {"x_vel", "y_vel", "z_vel"} -> VelLim(P, x, Axis(ev.base))
      [] ev.base = "chief_collision" -> Chief(P, x)
      [] ev.base = "chief_collision_hocbf" -> RadialBig(P3(x), V3(x)) + ev.alpha
      [] ev.base \in {"sun", "chief_sun"} -> Cone(P, P3(x), V3(x), Sun(c, x))
      [] ev.base = "r_max" -> MaxDist(P, x)
      [] ev.base = "PSM" -> Passive(P, x, U, 100, P.chief + P.dep)
      [] ev.base = "psm" -> Passive(P, x, ev.dt, ev.steps, P.chief + P.dep)
      [] ev.base = "deputy_collision" -> Deputy(P, x, ev.k)
      [] ev.base = "deputy_sun" -> LET r == Toward(P, x, ev.k, Sun(c, x)) IN Cone(P, P3(r), V3(r), Sun(c, x))
      [] ev.base = "deputy_psm" -> Passive(P, Rel(x, ev.k), ev.dt, ev.steps, P.chief + P.dep)
      [] ev.base = "deputy_PSM" -> Passive(P, Rel(x, ev.k), U, 100, P.chief + P.dep)
\* documented logged value: the plain margin where there is one, otherwise the value itself
PhiOk(c, ev) ==
    LET P == c.P  x == ev.x IN
    CASE ev.base \in {"chief_collision", "chief_collision_hocbf"} -> Near(ev.phi, ChiefPlain(P, x), Tol(ChiefPlain(P, x)))
      [] ev.base = "deputy_collision" -> Near(ev.phi, DeputyPlain(P, x, ev.k), Tol(DeputyPlain(P, x, ev.k)))
      [] ev.base = "r_max" -> Near(ev.phi, MaxDistPlain(P, x), Tol(MaxDistPlain(P, x)))
      [] ev.base \in {"sun", "chief_sun"} -> ConeAngleOk(P, P3(x), Sun(c, x), ev.phi, 150)
      [] ev.base = "deputy_sun" -> ConeAngleOk(P, P3(Toward(P, x, ev.k, Sun(c, x))), Sun(c, x), ev.phi, 150)
      [] OTHER -> LET w == Val(c, ev) IN Near(ev.phi, w, Tol(w) * (IF ev.base \in {"PSM", "deputy_PSM", "psm", "deputy_psm"} THEN 5 ELSE 1))
\* a bias may only make the enforced value smaller, and only slightly
ValOk(c, ev) == LET w == Val(c, ev)  tol == Tol(w) * (IF ev.base \in {"PSM", "deputy_PSM", "psm", "deputy_psm"} THEN 5 ELSE 1)
                IN  ev.val <= w + tol /\ ev.val >= w - 250 - tol
\* where the formula is too steep for fixed point (next to a square root's zero or the cone's axis) only the logged value is judged
Steep(d, p) == Abs(d) <= 2000 + Norm(p) \div 1000
ConeSteep(P, p, sun) == LET q == ConeParts(P, p, sun) IN Abs(q.dist) <= 20000 + Norm(p) \div 50 \/ q.e <= 10000 + Norm(p) \div 20
Judged(c, ev) ==
    LET P == c.P  x == ev.x IN
    CASE ev.base = "chief_collision" -> ~Steep(ChiefPlain(P, x), P3(x))
      [] ev.base = "deputy_collision" -> ~Steep(DeputyPlain(P, x, ev.k), P3(Rel(x, ev.k)))
      [] ev.base = "chief_collision_hocbf" -> Abs(ev.alpha) < 900000000
      [] ev.base = "r_max" -> ~Steep(MaxDistPlain(P, x), P3(x))
      [] ev.base \in {"sun", "chief_sun"} -> ~ConeSteep(P, P3(x), Sun(c, x))
      [] ev.base = "deputy_sun" -> LET r == P3(Toward(P, x, ev.k, Sun(c, x))) IN ~ConeSteep(P, r, Sun(c, x)) /\ FDot(r, SunDir(Sun(c, x))) > Norm(r) \div 50
      [] OTHER -> TRUE
PhiJudged(c, ev) == ev.base # "deputy_sun" \/ LET r == P3(Toward(c.P, ev.x, ev.k, Sun(c, ev.x))) IN FDot(r, SunDir(Sun(c, ev.x))) > Norm(r) \div 50
HFails(c, ev) == C(ev.name = IF ev.k = 0 THEN ev.base ELSE ev.base \o "_" \o ToString(ev.k), "name") \cup C(Judged(c, ev) => ValOk(c, ev), "value of " \o ev.base) \cup C(PhiJudged(c, ev) => PhiOk(c, ev), "logged value of " \o ev.base)

\* ---- dynamics
Wide(c, x) == \* drift of the whole state
    CASE c.fam \in {"int", "dock"} -> Deriv(c.P, x, Zero(c.P.dim))
      [] c.fam \in {"insp1", "inspd"} -> Deriv(c.P, x, <<0, 0, 0>>) \o <<Tdiv(c.P.sun6, 10), 0>>
      [] c.fam = "inspn" -> Flatten([k \in 1..c.P.ndep |-> Deriv(c.P, SubSeq(x, 6 * k - 5, 6 * k), <<0, 0, 0>>)]) \o <<Tdiv(c.P.sun6, 10)>>
InvM(c, i, j) == IF i = c.P.dim + j THEN Div(U, c.P.m) ELSE 0      \* thrust enters the first spacecraft's acceleration only
Gmat(c, rows) == Flatten([i \in 1..rows |-> [j \in 1..c.P.dim |-> InvM(c, i, j)]])
NextD(c, ev) == Flow(c.P, SubSeq(ev.x, 1, 6), ev.dt, ev.u) \o <<ev.x[7] + Ppm(Mul(ev.dt, U), Abs(c.P.sun6)) * Sgn(c.P.sun6)>>
\* the continuous inspection module also accounts for the sun and for the delta-v spent
Coasted(c, ev) == LET y == Flow(c.P, SubSeq(ev.x, 1, 6), ev.dt, ev.u) IN
                  y \o <<ev.x[7] + Ppm(Mul(ev.dt, U), Abs(c.P.sun6)) * Sgn(c.P.sun6), ev.x[8] + Mul(ev.dt, Div(Abs(ev.u[1]) + Abs(ev.u[2]) + Abs(ev.u[3]), c.P.m))>>
DynTol(x) == 40 + MaxAbs(x) \div 2000

\* ---- switching
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Clipped(c, u) == TLCEval([i \in 1..Len(u) |-> Clip(u[i], c.lo, c.hi)])
Backup(c, K, x) == IF c.fam = "int" THEN <<-U>> ELSE Clipped(c, [i \in 1..c.P.dim |-> -FDot(K[i], Vel(c.P, x))])
Worst(c, x) == LET hs == CASE c.fam = "int" -> {IF c.kind \in {"es", "ea"} THEN StopDist(x) ELSE -x[1]}
                           [] OTHER -> {RelVel(c.P, x) - 10} \cup {VelLim(c.P, x, i) : i \in 1..c.P.dim}
               IN  CHOOSE v \in hs : \A w \in hs : v <= w
RECURSIVE Window(_, _, _, _, _, _)
Window(c, K, x, dt, k, acc) == LET w == Min2(acc, Worst(c, x)) IN IF k = 0 THEN w ELSE Window(c, K, Pred(c.P, x, dt, Backup(c, K, x)), dt, k - 1, w)
Margin(c, ev) == LET y == Pred(c.P, ev.x, ev.dt, Clipped(c, ev.d)) IN
                 IF c.kind = "es" THEN Worst(c, y) ELSE Window(c, ev.K, y, ev.dt, c.window \div ev.dt, 2000000000)
SwitchFails(c, ev) == LET m == Margin(c, ev) IN
    IF Abs(m) <= 200 + MaxAbs(ev.x) \div 1000 THEN {}
    ELSE IF m > 0 THEN C(~ev.iv, "intervened although safe") \cup C(NearV(ev.u, Clipped(c, ev.d), 2), "control not passed")
    ELSE C(ev.iv, "passed although unsafe") \cup C(NearV(ev.u, Backup(c, ev.K, ev.x), 150), "not the backup control")

\* ---- optimization: certificate (multipliers lam proposed by the recorder)
Rows(c, ev) ==
    LET P == c.P  x == ev.x  rp == NormD(Pos(P, x))  rv == NormD(Vel(P, x))  im == Div(U, P.m)  acc == Accel(P, x, Zero(P.dim)) IN
    IF c.fam = "int"
    THEN << [a |-> <<-2 * Mul(x[2], im)>>, r |-> -2 * x[2] + ev.alpha[1]] >>
    ELSE << [a |-> [i \in 1..P.dim |-> -Mul(Div(Vel(P, x)[i], rv), im)],
             r |-> Tdiv(P.v12 * N(P, FDot([i \in 1..P.dim |-> Div(Pos(P, x)[i], rp)], Vel(P, x))), 2) - Div(FDot(Vel(P, x), acc), rv) + ev.alpha[1]] >>
         \o [i \in 1..P.dim |-> [a |-> [j \in 1..P.dim |-> IF i = j THEN -2 * Mul(Vel(P, x)[i], im) ELSE 0], r |-> -2 * Mul(Vel(P, x)[i], acc[i]) + ev.alpha[1 + i]]]
BoundRows(c) == [i \in 1..c.P.dim |-> [a |-> Scale(-U, Unit(c.P.dim, i)), r |-> c.hi]] \o [i \in 1..c.P.dim |-> [a |-> Scale(U, Unit(c.P.dim, i)), r |-> -c.lo]]
\* row: a . u + r >= 0
AsifFails(c, ev) ==
    LET rows == Rows(c, ev) \o BoundRows(c)
        slack == TLCEval([j \in 1..Len(rows) |-> FDot(rows[j].a, ev.u) + rows[j].r])
        push == TLCEval([i \in 1..c.P.dim |-> Sum([j \in 1..Len(rows) |-> Mul(ev.lam[j], rows[j].a[i])])])
        move == MaxAbs(Sub(ev.u, ev.d))
    IN  C(\A j \in 1..Len(rows) : slack[j] >= -150, "a condition is not met")
        \cup C(\A j \in 1..Len(rows) : ev.lam[j] >= 0, "machinery: multiplier")
        \cup C(\A j \in 1..Len(rows) : ev.lam[j] > 0 => slack[j] <= 150 + ev.big, "not the closest control")
        \cup C(NearV(Sub(ev.u, ev.d), push, 200 + ev.big), "not the closest control")
        \cup C(move < 20 => ~ev.iv, "intervention reported") \cup C(move > 1200 => ev.iv, "intervention not reported")

\* ---- closed loop: the plant moves as predicted, a safe state is followed by a safe state
LoopFails(c, ev) == C(NearV(ev.to, Pred(c.P, ev.x, ev.dt, ev.u), 30), "machinery: plant")
                    \cup C(Worst(c, ev.to) >= -100, "unsafe state reached")
BackupFails(c, ev) ==
    IF c.fam = "int" THEN C(ev.val = <<-U>>, "backup control")
    ELSE C(MaxAbs(Vel(c.P, ev.x)) # 0 \/ MaxAbs(ev.val) <= 1, "backup control at rest")
         \cup C(MaxAbs(Vel(c.P, ev.x)) < U \/ FDot(ev.val, Vel(c.P, ev.x)) < 0, "backup control does not brake")
         \cup C(NearV(ev.val, [i \in 1..c.P.dim |-> -FDot(ev.K[i], Vel(c.P, ev.x))], 100 + MaxAbs(ev.x) \div 2000), "backup control depends on more than velocity")

Fails(c, ev) ==
    IF ev.status # "ok" THEN {"status:" \o ev.status}
    ELSE CASE ev.op = "construct" -> C(Family(c) = <<>> \/ ev.names = Family(c), "constraint names")
           [] ev.op = "h" -> HFails(c, ev)
           [] ev.op = "f" -> C(NearV(ev.val, Wide(c, ev.x), DynTol(ev.x)), "drift")
           [] ev.op = "g" -> C(NearV(ev.val, Gmat(c, Len(ev.x)), 2), "control input matrix")
           [] ev.op = "pred" -> C(NearV(ev.val, Pred(c.P, ev.x, ev.dt, ev.u), DynTol(ev.x)), "prediction")
           [] ev.op = "next" -> C(NearV(SubSeq(ev.val, 1, 7), NextD(c, ev), 3 * DynTol(SubSeq(ev.x, 1, 6)) + (IF c.P.n6 < 5000 THEN 800 ELSE 0)), "prediction")
           [] ev.op = "backup" -> BackupFails(c, ev)
           [] ev.op = "switch" -> SwitchFails(c, ev)
           [] ev.op = "asif" -> AsifFails(c, ev)
           [] ev.op = "alpha" -> LET w == Mul(ev.v, 10 * ev.c1) + Mul(Mul(Mul(ev.v, ev.v), ev.v), 10 * ev.c3) IN C(Near(ev.val, w, 5 + Abs(w) \div 500), "default strengthener")
           [] ev.op = "coast" -> C(NearV(ev.val, Coasted(c, ev), DynTol(SubSeq(ev.x, 1, 6))), "prediction")
           [] ev.op = "loop" -> LoopFails(c, ev)
           [] ev.op = "same" -> C(NearV(ev.a, ev.b, ev.tol), ev.what) \cup C(ev.ia = ev.ib, ev.what \o ": flag")
Step == /\ l <= Len(Traces[t].ev)
        /\ LET f == Fails(Cfgs[Traces[t].c], Traces[t].ev[l])
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED t
               ELSE l' = l + 1 /\ t' = t
Spec == Init /\ [][Step]_vars
=============================================================================
