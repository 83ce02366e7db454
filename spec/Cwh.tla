--------------------------------- MODULE Cwh ---------------------------------
(* Ready-made modules: Clohessy-Wiltshire and 1D integrator dynamics, docking and inspection constraints, as
   documented.  Fixed point (module Fixed).  A module's parameters are a record P:
     dim (1, 2, 3), n6 (mean motion in ppm), m, v0, v12 (twice the speed slope coefficient, an integer), dist, vlim (sequence),
     chief, dep (radii), rmax, fov, sun6 (sun rate in ppm, signed), ndep. *)
EXTENDS Fixed

N(P, v) == Ppm(v, P.n6)
N2(P, v) == N(P, N(P, v))
D(P) == P.dim
Pos(P, x) == [i \in 1..D(P) |-> x[i]]
Vel(P, x) == [i \in 1..D(P) |-> x[D(P) + i]]

\* ---------------------------------------------------------------- dynamics
Accel(P, x, u) ==
    CASE D(P) = 1 -> <<Div(u[1], P.m)>>
      [] D(P) = 2 -> <<3 * N2(P, x[1]) + 2 * N(P, x[4]) + Div(u[1], P.m), -2 * N(P, x[3]) + Div(u[2], P.m)>>
      [] D(P) = 3 -> <<3 * N2(P, x[1]) + 2 * N(P, x[5]) + Div(u[1], P.m), -2 * N(P, x[4]) + Div(u[2], P.m), -N2(P, x[3]) + Div(u[3], P.m)>>
Deriv(P, x, u) == TLCEval(Vel(P, x) \o Accel(P, x, u))
Euler(P, x, dt, u) == TLCEval([i \in 1..2 * D(P) |-> x[i] + Mul(dt, Deriv(P, x, u)[i])])
\* exact flow for constant u: Taylor series, each derivative the linear field applied to the previous one
RECURSIVE FlowT(_, _, _, _, _)
FlowT(P, d, dt, k, acc) == IF k > 8 THEN acc
                           ELSE LET term == TLCEval([i \in 1..Len(d) |-> Tdiv(Mul(dt, d[i]), k)])
                                IN  FlowT(P, Deriv(P, term, Zero(D(P))), dt, k + 1, Add(acc, term))
Flow(P, x, dt, u) == FlowT(P, Deriv(P, x, u), dt, 1, x)
Pred(P, x, dt, u) == IF P.euler THEN Euler(P, x, dt, u) ELSE Flow(P, x, dt, u)

\* closed form without control (3D)
Coast(P, x, t) ==
    LET nt == N(P, t)  c == Cos(nt)  s == Sin(nt)
        over(v) == Sgn(v) * DivD(Abs(v) \div P.n6, Abs(v) % P.n6, P.n6, 6)      \* v / n
    IN  <<Mul(4 * U - 3 * c, x[1]) + over(Mul(s, x[4])) + 2 * over(Mul(U - c, x[5])),
          6 * Mul(s - nt, x[1]) + x[2] - 2 * over(Mul(U - c, x[4])) + over(Mul(4 * s - 3 * nt, x[5])),
          Mul(x[3], c) + over(Mul(s, x[6]))>>

\* ---------------------------------------------------------------- docking constraints
NormD(v) == IF MaxAbs(v) > 50000 THEN Norm(v) ELSE Tdiv(Sqrt(LET w == [i \in 1..Len(v) |-> 100 * v[i]] IN FDot(w, w) + 10000), 100)
SpeedLimit(P, x) == P.v0 + Tdiv(P.v12 * N(P, NormD(Pos(P, x)) - P.dist), 2)
RelVel(P, x) == SpeedLimit(P, x) - NormD(Vel(P, x))
VelLim(P, x, i) == Mul(P.vlim[i], P.vlim[i]) - Mul(x[D(P) + i], x[D(P) + i])
StopDist(x) == -2 * x[1] - Mul(x[2], x[2])

\* ---------------------------------------------------------------- inspection constraints
AMax(P) == LET top == P.v0 + Tdiv(P.v12 * N(P, P.rmax), 2)
               vmax == Min2(P.vlim[1], top)
           IN  Div(U, P.m) - 3 * N2(P, P.rmax) - 2 * N(P, vmax)
SRoot(v) == IF v >= 0 THEN Sqrt(v) ELSE -Sqrt(-v)
Radial(p, v) == Div(FDot(p, v), Norm(p))
RadialBig(p, v) == IF MaxAbs(p) > 7000000 THEN Div(FDot([i \in 1..3 |-> Tdiv(p[i], 100)], v), Tdiv(Norm(p), 100)) ELSE Radial(p, v)
P3(x) == <<x[1], x[2], x[3]>>
V3(x) == <<x[4], x[5], x[6]>>
Rel(x, k) == [i \in 1..6 |-> x[i] - x[6 * k + i]]
Chief(P, x) == SRoot(Mul(2 * AMax(P), Norm(P3(x)) - P.chief - P.dep)) + RadialBig(P3(x), V3(x))
ChiefPlain(P, x) == Norm(P3(x)) - P.chief - P.dep
Deputy(P, x, k) == LET r == Rel(x, k) IN SRoot(Mul(4 * AMax(P), Norm(P3(r)) - 2 * P.dep)) + RadialBig(P3(r), V3(r))
DeputyPlain(P, x, k) == Norm(P3(Rel(x, k))) - 2 * P.dep
MaxDist(P, x) == SRoot(Mul(2 * AMax(P), P.rmax - Norm(P3(x)))) - RadialBig(P3(x), V3(x))
MaxDistPlain(P, x) == P.rmax - Norm(P3(x))
\* the line of sight from the deputy through the chief must stay out of the cone around the sun line
SunDir(sun) == <<-Cos(sun), -Sin(sun), 0>>
ConeParts(P, p, sun) ==
    LET c == SunDir(sun)  th == P.fov \div 2  along == FDot(p, c)
        perp == [i \in 1..3 |-> p[i] - Mul(along, c[i])]  e == Norm(perp)
        d == Mul(Cos(th), e) - Mul(Sin(th), along)
        nrm == [i \in 1..3 |-> Div(Mul(Cos(th), perp[i]), e) - Mul(Sin(th), c[i])]
    IN  [dist |-> d, nrm |-> nrm, foot |-> [i \in 1..3 |-> p[i] - Mul(d, nrm[i])], e |-> e, along |-> along]
Spin(P, f) == LET w(v) == Sgn(P.sun6) * Ppm(v, Abs(P.sun6)) IN <<-w(f[2]), w(f[1]), 0>>      \* velocity of a point of the cone
Cone(P, p, v, sun) == LET q == ConeParts(P, p, sun)
                          vf == Spin(P, q.foot)
                      IN  SRoot(Mul(2 * AMax(P), q.dist)) + FDot(q.nrm, [i \in 1..3 |-> v[i] - vf[i]])
\* the margin is an angle: phi + fov/2 is the angle between position and sun direction
ConeAngleOk(P, p, sun, phi, tol) == /\ Near(Mul(Cos(phi + P.fov \div 2), Norm(p)), FDot(p, SunDir(sun)), Mul(tol, Norm(p)) + 30)
                                    /\ phi + P.fov \div 2 >= -500 /\ phi + P.fov \div 2 <= PI + 500
\* towards another deputy the nearer half of the axis counts
Toward(P, x, k, sun) == LET r == Rel(x, k) IN IF FDot(P3(r), SunDir(sun)) < 0 THEN [i \in 1..6 |-> -r[i]] ELSE r
\* the closed form loses digits for slow motion, the series for long motion; the series runs in units of the whole time span
Drifted(P, x, t) == IF N(P, t) < 60000 THEN P3(Flow([P EXCEPT !.n6 = (P.n6 * (t \div 1000)) \div 100], P3(x) \o [i \in 1..3 |-> Mul(x[3 + i], t)], U, <<0, 0, 0>>))
                    ELSE Coast(P, x, t)
RECURSIVE CoastMin(_, _, _, _, _)
CoastMin(P, x, dt, k, best) == IF k = 0 THEN best ELSE CoastMin(P, x, dt, k - 1, Min2(best, Norm(Drifted(P, x, dt * k))))
Passive(P, x, dt, steps, radius) == CoastMin(P, x, dt, steps, 2000000000) - radius
=============================================================================
