------------------------------ MODULE MCCascade ------------------------------
EXTENDS Cascade, Json, IOUtils
Cfgs == JsonDeserialize(IOEnv.RTA_CFGS)
VARIABLES ci, st
vars == <<ci, st>>
RECURSIVE Strip(_)
Strip(s) == IF "ss" \in DOMAIN s THEN [s EXCEPT !.ss = [i \in 1..Len(@) |-> Strip(@[i])]] ELSE [s EXCEPT !.vals = <<>>, !.stale = FALSE]
RECURSIVE KeyOf(_)
KeyOf(q) == IF "ss" \in DOMAIN q THEN <<q.en, q.iv, [i \in 1..Len(q.ss) |-> KeyOf(q.ss[i])]>> ELSE <<q.en, q.iv, q.el, q.cs, q.lim, q.con, q.dlim, q.dcon>>
Key(s) == ToString(KeyOf(s))
Init == /\ ci \in 1..Len(Cfgs)
        /\ st = Strip(CInit(Cfgs[ci]))
        /\ PrintT(ToJson(<<"I", ci, Key(st)>>))
InB(cc, u) == Clip(cc, u) = u
\* design properties: own bounds (C01), pass-through (C02), a cascade whose stages all pass equals its own limits (C13)
OK(cc, s, op, r) ==
    /\ Assert(s.en => InB(cc, r.out), <<"design: bounds", cc.name>>)
    /\ Assert(~s.en => r.out = op.d /\ r.st = s, <<"design: pass-through", cc.name>>)
    /\ Assert((s.en /\ \A i \in 1..Len(s.ss) : ~s.ss[i].en) => (r.out = Clip(cc, op.d) /\ ~r.st.iv), <<"design: transparent", cc.name>>)
Apply(cc, s, op) ==
    IF op.op = "filter"
    THEN LET r == CFilter(cc, s, op.x, op.h, op.dtm, op.d)
         IN  IF ~r.ok THEN [st |-> s, v |-> "undecided"] ELSE IF OK(cc, s, op, [r EXCEPT !.st = Strip(@)]) THEN [st |-> Strip(r.st), v |-> IF r.st.iv THEN "intervene" ELSE "pass"] ELSE [st |-> s, v |-> ""]
    ELSE LET t == Strip(COther(cc, s, op))
         IN  IF op.op # "reset" \/ Assert(\A i \in 1..Len(t.ss) : t.ss[i] = Strip(CReset(cc.stages[i], s.ss[i])) /\ ~t.ss[i].iv, "design: reset")
             THEN [st |-> t, v |-> ""] ELSE [st |-> s, v |-> ""]
Next == \E k \in 1..Len(Cfgs[ci].ops) :
          LET a == Apply(Cfgs[ci], st, Cfgs[ci].ops[k])
          IN  a.v # "undecided" \* outside the integer fragment: such calls are not replayed
              /\ ci' = ci /\ st' = a.st /\ PrintT(ToJson(<<"E", ci, Key(st), k, Key(a.st), a.v>>))
Spec == Init /\ [][Next]_vars
TypeOK == st.en \in BOOLEAN /\ st.iv \in BOOLEAN
=============================================================================
