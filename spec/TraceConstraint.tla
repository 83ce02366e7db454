--------------------------- MODULE TraceConstraint ---------------------------
EXTENDS Constraints, Json, IOUtils
Data == JsonDeserialize(IOEnv.RTA_TRACES)
Cfgs == TLCEval(Data.cfgs)
Traces == Data.traces
Polys == TLCEval([k \in 1..Len(Cfgs) |-> IF Cfgs[k].kind = "hocbf" THEN HoPoly(Cfgs[k]) ELSE << >>])
Bases == TLCEval([k \in 1..Len(Cfgs) |-> IF Cfgs[k].kind = "hocbf" THEN BasePoly(Cfgs[k]) ELSE << >>])
Grads == TLCEval([k \in 1..Len(Cfgs) |-> IF Cfgs[k].kind = "hocbf" THEN [i \in 1..Cfgs[k].n |-> PDiff(Polys[k], i)] ELSE << >>])
VARIABLES t, l, lim
vars == <<t, l, lim>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ lim = Cfgs[Traces[t].c].lim
C(cond, name) == IF cond THEN {} ELSE {name}
LimitFails(c, ev) ==
    C(Abs(ev.val - (LimitVal(c, ev.x, lim) + 4 * c.b100)) <= 1, "value")
    \cup C(c.b100 # 0 \/ ev.nn = Inside(c, ev.x, lim), "sign")
    \cup C(Abs(ev.phi - LimitVal(c, ev.x, lim)) <= 1, "logged value")
    \cup C(ev.grad = LimitGrad(c, ev.x), "gradient")
AlphaFails(c, ev) == LET a == IF c.a # <<>> \/ c.given THEN c.a ELSE IF c.own THEN DefaultAlpha ELSE DefaultLimitAlpha
                         w == AlphaVal(a, ev.v, c.deg)
                         n == IF c.an # <<>> THEN AlphaVal(c.an, ev.v, c.deg) ELSE 10 * w
                     IN  C(Abs(ev.val - w) <= 3 + Abs(w) \div 200000, "strengthener")
                         \cup C(c.own \/ Abs(ev.neg - n) <= 30 + Abs(n) \div 200000, "negative side strengthener")
HoTol(w) == 2 + Abs(w) \div 100
HoFails(k, c, ev) ==
    LET z == ev.x \o <<lim>>
        v == PEval(Polys[k], z) + c.obias
        h == PEval(Bases[k], z)
    IN  C(Abs(ev.val - 1000 * v) <= HoTol(v), "value of the higher-order constraint")
        \cup C(Abs(ev.phi - 1000 * h) <= HoTol(h), "logged value of the higher-order constraint")
        \cup C(\A i \in 1..c.n : LET g == PEval(Grads[k][i], z) IN Abs(ev.grad[i] - 1000 * g) <= HoTol(g), "gradient of the higher-order constraint")
Step == /\ l <= Len(Traces[t].ev)
        /\ LET k == Traces[t].c
               c == Cfgs[k]
               ev == Traces[t].ev[l]
               f == C(ev.status = "ok", "status:" \o ev.status)
                    \cup (IF ev.status # "ok" \/ ev.op \in {"set", "construct"} THEN {}
                          ELSE IF ev.op = "alpha" THEN AlphaFails(c, ev)
                          ELSE IF c.kind = "limit" THEN LimitFails(c, ev) ELSE HoFails(k, c, ev))
           IN  IF f # {} THEN PrintT(ToJson(<<"FAIL", t, l, SetToSeqS(f)>>)) /\ l' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<t, lim>>
               ELSE l' = l + 1 /\ t' = t /\ lim' = IF ev.op = "set" THEN ev.l ELSE lim
Spec == Init /\ [][Step]_vars
=============================================================================
