---------------------------- MODULE MCConstraint ----------------------------
(* A constraint object in use: evaluations at the states of the alphabet, limits changed in between. *)
EXTENDS Constraints, Json, IOUtils
Cfgs == TLCEval(JsonDeserialize(IOEnv.RTA_CFGS))
Polys == TLCEval([k \in 1..Len(Cfgs) |-> IF Cfgs[k].kind = "hocbf" THEN HoPoly(Cfgs[k]) ELSE << >>])
VARIABLES ci, lim
vars == <<ci, lim>>
Init == ci \in 1..Len(Cfgs) /\ lim = Cfgs[ci].lim /\ PrintT(ToJson(<<"I", ci, ToString(lim)>>))
\* design: the value is non-negative exactly inside the documented limit
SignOk(c, op) == (c.kind = "limit" /\ op.op = "eval") => (LimitVal(c, op.x, lim) >= 0) = Inside(c, op.x, lim)
\* design: the polynomial calculus obeys Taylor's theorem along each coordinate (value one step away from the derivatives here)
RECURSIVE Taylor(_, _, _, _, _)
Taylor(p, x, i, k, fact) == IF DOMAIN p = {} THEN 0 ELSE PEval(p, x) \div fact + Taylor(PDiff(p, i), x, i, k + 1, fact * (k + 1))
CalcOk(c, op) == (c.kind = "hocbf" /\ op.op = "eval" /\ c.small) =>
                   LET z == op.x \o <<lim>> IN \A i \in 1..c.n : PEval(Polys[ci], Add(z, Unit(NV(c), i))) = Taylor(Polys[ci], z, i, 0, 1)
\* design: along the drift, where the chain's last two members are non-negative and alpha is linear, psi_{r-2} cannot decrease faster than alpha allows
Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET op == Cfgs[ci].ops[k]
              m == IF op.op = "set" THEN op.l ELSE lim
          IN  /\ Assert(SignOk(Cfgs[ci], op), "design: sign of a limit") /\ Assert(CalcOk(Cfgs[ci], op), "design: calculus")
              /\ ci' = ci /\ lim' = m /\ PrintT(ToJson(<<"E", ci, ToString(lim), k, ToString(m), "">>))
Spec == Init /\ [][Next]_vars
TypeOK == lim \in Int
=============================================================================
