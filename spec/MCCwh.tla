-------------------------------- MODULE MCCwh --------------------------------
(* The inputs at which the ready-made modules are compared, with design facts about the reference itself on every input. *)
EXTENDS Cwh, Json, IOUtils
Cfgs == TLCEval(JsonDeserialize(IOEnv.RTA_CFGS))
VARIABLES ci, done
vars == <<ci, done>>
Init == ci \in 1..Len(Cfgs) /\ done = 0 /\ PrintT(ToJson(<<"I", ci, "0">>))
\* coasting in closed form is the flow of the dynamics (up to ten seconds of slow motion)
CoastOk(P, x) == (D(P) = 3 /\ P.n6 >= 20000 /\ P.n6 <= 300000 /\ MaxAbs(P3(x)) < 3000000) =>
                   LET t == 2 * U  y == Flow(P, [i \in 1..6 |-> x[i]], t, <<0, 0, 0>>)  z == Coast(P, x, t)
                   IN  \A i \in 1..3 : Abs(y[i] - z[i]) <= 200 + MaxAbs(P3(x)) \div 1500
\* the foot of the perpendicular lies on the cone
FootOk(c, x) == (c.fam \in {"insp1", "inspd", "inspn"}) =>
                   LET q == ConeParts(c.P, P3(x), x[Len(x) - (IF c.fam = "inspn" THEN 0 ELSE 1)]) IN
                   (q.e > 50000 /\ Abs(q.dist) < 2000000 /\ FDot(q.foot, SunDir(x[Len(x) - (IF c.fam = "inspn" THEN 0 ELSE 1)])) > 0) => Abs(ConeParts(c.P, q.foot, x[Len(x) - (IF c.fam = "inspn" THEN 0 ELSE 1)]).dist) <= 150 + Norm(P3(x)) \div 5000
\* standing still, the braking-distance barrier has the sign of the plain margin
StillOk(c, x) == (c.fam \in {"insp1", "inspd", "inspn"}) =>
                   LET y == [x EXCEPT ![4] = 0, ![5] = 0, ![6] = 0] IN
                   /\ AMax(c.P) > 0
                   /\ Abs(ChiefPlain(c.P, y)) > 200 => (Chief(c.P, y) >= 0) = (ChiefPlain(c.P, y) >= 0)
                   /\ Abs(MaxDistPlain(c.P, y)) > 200 => (MaxDist(c.P, y) >= 0) = (MaxDistPlain(c.P, y) >= 0)
\* stopping distance: braking at unit deceleration from a state with non-negative barrier ends before the origin
StopOk(c, x) == (c.fam = "int" /\ x[2] >= 0 /\ MaxAbs(x) < 100 * U /\ StopDist(x) >= 0) => x[1] + Tdiv(Mul(x[2], x[2]), 2) <= 1
Next == /\ done = 0
        /\ \E k \in 1..Len(Cfgs[ci].ops) :
             LET op == Cfgs[ci].ops[k]  c == Cfgs[ci] IN
             /\ Assert("x" \in DOMAIN op => CoastOk(c.P, op.x) /\ StopOk(c, op.x) /\ (op.op = "psm" \/ (FootOk(c, op.x) /\ StillOk(c, op.x))), <<"design", c.name, op>>)
             /\ ci' = ci /\ done' = 0 /\ PrintT(ToJson(<<"E", ci, "0", k, "0", "">>))
Spec == Init /\ [][Next]_vars
TypeOK == done = 0
=============================================================================
